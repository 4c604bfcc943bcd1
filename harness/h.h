/* what every harness includes */
#pragma once
#include "config.h"
#include <stdlib.h>
#include <string.h>
#include "server.h"
#include "externs.h"
#include "vp.h"
