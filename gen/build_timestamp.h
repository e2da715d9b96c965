#define RRR_BUILD_TIMESTAMP  20261112055228
