// The library under test, through the same headers a user includes.
#pragma once
#include "uspecial.h"
#include "umap.h"
#include "umultimap.h"
#include "ustack.h"
#include "uqueue.h"
#include "ofstream.h"
#include "unumeric.h"
#include "ulist.h"
#include "uheap.h"
#include "ustdxept.h"
#include "fstream.h"
#include "ualgo.h"
#include "uset.h"
#include "umultiset.h"
#include "ubitset.h"
#include "utuple.h"
#include "umemory.h"
#include "uctralgo.h"
#include "ufunction.h"
#include "uatomic.h"
#include "uchrono.h"
#include "uerror.h"
#include "uarray.h"
#include "bktrace.h"
