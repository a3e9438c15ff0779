/* #undef USE_MPFR_FLOAT */
