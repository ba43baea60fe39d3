#define SX_MAXDRAWS 200
typedef struct { char name[16]; double a,b,value; } sx_draw;
extern sx_draw sx_draws[SX_MAXDRAWS]; extern int sx_ndraws;
