#pragma once
#include "petscmock.h"
