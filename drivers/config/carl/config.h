/**
 * Auto generated file config.h from config.h.in.
 */ 
#pragma once

#define CARL_BUILD_DEBUG
/* #undef LOGGING */
/* #undef LOGGING_DISABLE_INEFFICIENT */
/* #undef THREAD_SAFE */
#define USE_BLISS
/* #undef USE_CLN_NUMBERS */
/* #undef USE_COCOA */
/* #undef USE_GINAC */

#define RAN_USE_INTERVAL
/* #undef RAN_USE_THOM */
/* #undef RAN_USE_Z3 */
