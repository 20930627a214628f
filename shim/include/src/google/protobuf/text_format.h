#include <google/protobuf/text_format.h>
