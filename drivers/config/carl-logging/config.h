/**
 * Auto generated file config.h from config.h.in.
 */ 
#pragma once

/* #undef LOGGING */
/* #undef LOGGING_DISABLE_INEFFICIENT */
/* #undef THREAD_SAFE */
