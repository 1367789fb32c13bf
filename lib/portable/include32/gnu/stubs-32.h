/* The 32 bit run-time libraries are installed, this header of theirs is not. */
