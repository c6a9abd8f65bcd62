// libcligen's API for the harness
#pragma once
#pragma clang diagnostic ignored "-Wextern-c-compat"
#include "world.h"
extern "C" {
#include "cligen_config.h"
#include <netinet/in.h>
#include "cligen_buf.h"
#include "cligen_cv.h"
#include "cligen_cvec.h"
#include "cligen_parsetree.h"
#include "cligen_pt_head.h"
#include "cligen_callback.h"
#include "cligen_object.h"
#include "cligen_handle.h"
#include "cligen_result.h"
#include "cligen_read.h"
#include "cligen_print.h"
#include "cligen_io.h"
#include "cligen_history.h"
#include "cligen_getline.h"
#include "cligen_syntax.h"
#include "cligen_expand.h"
#include "cligen_match.h"
#include "cligen_util.h"
}
#undef min
#undef max
