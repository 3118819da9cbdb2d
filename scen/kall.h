#pragma once
#include "kfeature.h"
#include "kselector_manager.h"
#include "kselector.h"
#include "kselectable.h"
#include "kconnection.h"
#include "kserver.h"
#include "kfiber.h"
#include "kfiber_sync.h"
#include "kasync_file.h"
#include "kasync_worker.h"
#include "kthread.h"
#include "kaddr.h"
#include "kudp.h"
#include "ksync.h"
#include "kgl_ssl.h"
#include "ksocket.h"
#include "kfile.h"
#include "kstring.h"
