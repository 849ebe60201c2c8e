#define MV_V(k) v ## k
#define MV_NEUTRON 1
