/**
 * Auto generated file config.h from config.h.in.
 */ 
#pragma once

/* #undef CARL_DEVOPTION_Statistics */
