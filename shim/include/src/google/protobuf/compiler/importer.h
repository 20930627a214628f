#include <google/protobuf/compiler/importer.h>
