#ifndef SIM_CONFIGS_HPP
#define SIM_CONFIGS_HPP
#include "config.hpp"
namespace sim{
#if CFG==0
typedef Cfg<0,OU<0>,SQ,HN<1>> CA; typedef Cfg<0,ON<1>,SQ,HN<2>> CB;
#elif CFG==1
typedef Cfg<POL_CCA|POL_CMA|POL_SWAP,RN<0>,RA,HU<3>> CA; typedef Cfg<POL_CCA|POL_CMA|POL_SWAP,RU<0>,RA,HU<1>> CB;
#elif CFG==2
typedef Cfg<POL_SOCCC|POL_CMA,SQ,ON<0>,RA> CA; typedef Cfg<POL_SOCCC|POL_CMA,SQ,OU<3>,RA> CB;
#elif CFG==3
typedef Cfg<POL_SWAP|POL_CCA,HU<0>,HNC<1,2>,RNC<0,1>> CA; typedef Cfg<POL_SWAP|POL_CCA,HU<1>,HNC<1,2>,RNC<0,1>> CB;
#elif CFG==4
typedef Cfg<POL_CCA|POL_CMA|POL_SWAP|POL_SOCCC,RA,HN<0>,RU<3>,SQ> CA; typedef CA CB;
#elif CFG==5
typedef Cfg<POL_AEQ,ONC3<0,1,2>,OU<3>,RN<1>> CA; typedef CA CB;
#elif CFG==6
typedef Cfg<POL_CMA|POL_SWAP,HN<1>,OUC<0,3>,SQ> CA; typedef Cfg<POL_CMA|POL_SWAP,HN<3>,ONC<0,1>,SQ> CB;
#elif CFG==7
typedef Cfg<POL_FANCY|POL_CCA|POL_SOCCC,ON<2>,HN<1>,RU<0>,SQ,RA> CA; typedef CA CB;
#elif CFG==8
typedef Cfg<POL_CMA|POL_SWAP|POL_SOCCC,HUC3<0,1,3>> CA; typedef Cfg<POL_CMA|POL_SWAP|POL_SOCCC,HU<2>> CB;
#endif
}
#endif
