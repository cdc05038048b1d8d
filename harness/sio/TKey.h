#include "TFile.h"
