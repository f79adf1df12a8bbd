#ifndef FAIR_MQ_VERSION_H
#define FAIR_MQ_VERSION_H
#define FAIRMQ_VERSION "1.0.0"
#define FAIRMQ_VERSION_DEC 100000
#define FAIRMQ_VERSION_MAJOR 1
#define FAIRMQ_VERSION_MINOR 0
#define FAIRMQ_VERSION_PATCH 0
#define FAIRMQ_GIT_VERSION "sim"
#define FAIRMQ_GIT_DATE "sim"
#define FAIRMQ_REPO_URL ""
#define FAIRMQ_LICENSE "LGPL-3.0"
#define FAIRMQ_COPYRIGHT ""
#define FAIRMQ_BUILD_TYPE "sim"
#endif
