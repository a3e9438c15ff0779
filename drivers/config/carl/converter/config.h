/**
 * Auto generated file config.h from config.h.in.
 */ 
#pragma once

/* #undef USE_COCOA */
/* #undef USE_CLN_NUMBER */
/* #undef USE_GINAC */
/* #undef COMPARE_WITH_Z3 */
