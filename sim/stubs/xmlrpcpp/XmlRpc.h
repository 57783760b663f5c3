#pragma once
#include <xmlrpcpp/XmlRpcValue.h>
