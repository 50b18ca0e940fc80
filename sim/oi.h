// The repository's public C headers, usable from C++.
#pragma once
#include <complex>
#include <complex.h>
#include <fitsio.h>
#include <glib.h>
#define complex _Complex
extern "C" {
#include "exchange.h"
#include "oifile.h"
#include "oifilter.h"
#include "oimerge.h"
#include "oicheck.h"
#include "oiiter.h"
int oimain_merge(int argc, char **argv);
int oimain_filter(int argc, char **argv);
int oimain_upgrade(int argc, char **argv);
int oimain_check(int argc, char **argv);
int oimain_demo(int argc, char **argv);
}
#undef complex
