#include "podio/ROOTReader.h"
