#pragma once
#include "vp.h"
#include "fast_positive/tuples.h"
#include "fast_positive/tuples/schema.h"
#include "fast_positive/tuples/details/rw.h"
#include "fast_positive/tuples/details/getter.h"
#include "fast_positive/tuples/details/ro.h"
#include "fast_positive/tuples/details/field.h"
#include "fast_positive/tuples/details/meta.h"
#include "fast_positive/tuples/details/exceptions.h"
#include "fast_positive/tuples/details/scan.h"
#include "fast_positive/tuples/internal.h"
#include <limits>
#include <cmath>
using fptu::token;
using fptu::genus;
using fptu::details::tuple_rw;
using fptu::details::tuple_ro;
using fptu::details::field_loose;
using fptu::details::field_preplaced;
enum outcome { OK, RANGE, MISMATCH, ABSENT, DENIL, TOOLONG, TOOLARGE, NOSPACE, COLLREQ, COLLUNA, OVERFLOW_, BADARG, BADTUPLE, HOLLOW, SCHEMADEF, NOFIELD, OTHER };
/* runs X, classifying what it throws */
#define OUTCOME(VAR, X)                                                        \
  outcome VAR = OK;                                                            \
  try {                                                                        \
    X;                                                                         \
  }                                                                            \
  VP_CATCH(VAR, fptu::value_out_of_range, RANGE)                               \
  VP_CATCH(VAR, fptu::type_mismatch, MISMATCH)                                 \
  VP_CATCH(VAR, fptu::field_absent, ABSENT)                                    \
  VP_CATCH(VAR, fptu::value_is_denil, DENIL)                                   \
  VP_CATCH(VAR, fptu::value_too_long, TOOLONG)                                 \
  VP_CATCH(VAR, fptu::tuple_too_large, TOOLARGE)                               \
  VP_CATCH(VAR, fptu::insufficient_space, NOSPACE)                             \
  VP_CATCH(VAR, fptu::collection_required, COLLREQ)                            \
  VP_CATCH(VAR, fptu::collection_unallowed, COLLUNA)                           \
  VP_CATCH(VAR, fptu::tuple_overflow, OVERFLOW_)                               \
  VP_CATCH(VAR, fptu::invalid_argument, BADARG)                                \
  VP_CATCH(VAR, fptu::bad_tuple, BADTUPLE)                                     \
  VP_CATCH(VAR, fptu::tuple_hollow, HOLLOW)                                    \
  VP_CATCH(VAR, fptu::schema_definition_error, SCHEMADEF)                      \
  VP_CATCH(VAR, fptu::schema_no_such_field, NOFIELD)                           \
  catch (...) {                                                                \
    VAR = OTHER;                                                               \
  }
#define VP_CATCH(VAR, T, C)                                                    \
  catch (const T &) {                                                          \
    VAR = C;                                                                   \
  }
