#define MV_NEUTRON 0
