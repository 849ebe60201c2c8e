static FILE *mv_out = NULL;
static long mv_lines = 0, mv_calls[4096], mv_rays = 0;
static long mv_limit = 200000;
void mv_log(const char *fmt, ...) {
  va_list a;
  if (!mv_out) return;
  va_start(a, fmt); vfprintf(mv_out, fmt, a); va_end(a);
  if (++mv_lines > mv_limit) { fprintf(mv_out, "\nrunaway\n"); fflush(mv_out); _Exit(99); }
}
void mv_num(const char *what, double value) { mv_log(" %s=%.17g", what, value); }
void mv_int(const char *what, long long value) { mv_log(" %s=%lld", what, value); }
void mv_str(const char *what, const char *value) {
  mv_log(" %s=", what);
  if (!value) { mv_log("NULL"); return; }
  mv_log("\"");
  for (const unsigned char *c = (const unsigned char *) value; *c; ++c) mv_log("%02x", *c);
  mv_lines -= (long) strlen(value);
}
void mv_vec(const char *what, const double *v, int n) {
  mv_log(" %s=", what);
  if (!v) { mv_log("NULL"); return; }
  for (int i = 0; i < n; ++i) mv_log("%s%.17g", i ? "," : "", v[i]);
}
void mv_end(void) { mv_log("\n"); }
int mv_copy(char *dst, const char *src, long amount, long room) {
  long n = 0;
  if (!dst || !src || amount <= 0) return 0;
  if (room < 0) room = amount;
  while (n < amount) {
    if (n >= room) { mv_log("\noverflow stracpy %ld bytes of room, asked for %ld\n", room, amount); dst[room - 1] = 0; return 0; }
    dst[n] = src[n];
    if (!src[n]) return 1;
    ++n;
  }
  mv_log("\nunterminated stracpy of %ld bytes\n", amount);
  return 0;
}
void mv_component(const char *name, Coords pos, Rotation rot) {
  mv_log("place %s %.17g %.17g %.17g", name, pos.x, pos.y, pos.z);
  for (int i = 0; i < 9; ++i) mv_log(" %.17g", rot[i / 3][i % 3]);
  mv_log("\n");
}
#ifdef USE_NEXUS
void mccomp_placement_type_nexus(void *handle, char *component, Coords pos, Rotation rot, char *type) {
  mv_log("nxcomp %s %.17g %.17g %.17g", component, pos.x, pos.y, pos.z);
  for (int i = 0; i < 9; ++i) mv_log(" %.17g", rot[i / 3][i % 3]);
  mv_str("type", type); mv_end();
}
void mccomp_param_nexus(void *handle, char *component, char *parameter, char *defval, char *value, char *type) {
  mv_log("nxpar %s %s", component, parameter);
  mv_str("default", defval); mv_str("value", value); mv_str("type", type); mv_end();
}
#endif
void mv_enter(_class_particle *p) { mv_log("ray %lld\n", p->_uid); }
void mv_leave(_class_particle *p) { mv_log("ray-end %lld\n", p->_uid); }
int mv_action(const char *table, long index, _class_particle *p) {
  unsigned long h = (unsigned long) p->_uid * 2654435761u + (unsigned long) index * 40503u + (unsigned long) mv_calls[p->_uid & 4095] * 69069u;
  h ^= h >> 7; h *= 2246822519u; h ^= h >> 11; h &= 0xffffff;
  mv_calls[p->_uid & 4095]++;
  return table[h % strlen(table)];
}
Coords coords_set(MCNUM x, MCNUM y, MCNUM z) { Coords a; a.x = x; a.y = y; a.z = z; return a; }
Coords coords_get(Coords a, MCNUM *x, MCNUM *y, MCNUM *z) { *x = a.x; *y = a.y; *z = a.z; return a; }
Coords coords_add(Coords a, Coords b) { return coords_set(a.x + b.x, a.y + b.y, a.z + b.z); }
Coords coords_sub(Coords a, Coords b) { return coords_set(a.x - b.x, a.y - b.y, a.z - b.z); }
Coords coords_neg(Coords a) { return coords_set(-a.x, -a.y, -a.z); }
double coords_len(Coords a) { return sqrt(a.x*a.x + a.y*a.y + a.z*a.z); }
int coords_test_zero(Coords a) { return a.x == 0 && a.y == 0 && a.z == 0; }
void rot_set_rotation(Rotation t, double phx, double phy, double phz) {
  if (phx == 0 && phy == 0 && phz == 0) {
    for (int i = 0; i < 9; ++i) t[i / 3][i % 3] = i % 4 == 0;
  } else {
    double cx = cos(phx), sx = sin(phx), cy = cos(phy), sy = sin(phy), cz = cos(phz), sz = sin(phz);
    t[0][0] = cy*cz;  t[0][1] = sx*sy*cz + cx*sz; t[0][2] = sx*sz - cx*sy*cz;
    t[1][0] = -cy*sz; t[1][1] = cx*cz - sx*sy*sz; t[1][2] = sx*cz + cx*sy*sz;
    t[2][0] = sy;     t[2][1] = -sx*cy;           t[2][2] = cx*cy;
  }
}
int rot_test_identity(Rotation t) { return t[0][0] + t[1][1] + t[2][2] == 3; }
void rot_mul(Rotation t1, Rotation t2, Rotation t3) {
  Rotation r;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = t1[i][0]*t2[0][j] + t1[i][1]*t2[1][j] + t1[i][2]*t2[2][j];
  rot_copy(t3, r);
}
void rot_copy(Rotation dest, Rotation src) { for (int i = 0; i < 9; ++i) dest[i / 3][i % 3] = src[i / 3][i % 3]; }
void rot_transpose(Rotation src, Rotation dst) {
  Rotation r;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = src[j][i];
  rot_copy(dst, r);
}
Coords rot_apply(Rotation t, Coords a) {
  return coords_set(t[0][0]*a.x + t[0][1]*a.y + t[0][2]*a.z, t[1][0]*a.x + t[1][1]*a.y + t[1][2]*a.z, t[2][0]*a.x + t[2][1]*a.y + t[2][2]*a.z);
}
static void mv_turn(Rotation t, double *x, double *y, double *z) { coords_get(rot_apply(t, coords_set(*x, *y, *z)), x, y, z); }
void mccoordschange(Coords a, Rotation t, _class_particle *p) {
  coords_get(coords_add(rot_apply(t, coords_set(p->x, p->y, p->z)), a), &p->x, &p->y, &p->z);
#if MV_NEUTRON
  mv_turn(t, &p->vx, &p->vy, &p->vz);
  mv_turn(t, &p->sx, &p->sy, &p->sz);
#else
  mv_turn(t, &p->kx, &p->ky, &p->kz);
  mv_turn(t, &p->Ex, &p->Ey, &p->Ez);
#endif
}
void siminfo_init(FILE *f) { mv_log("siminfo\n"); siminfo_file = mv_out ? mv_out : stdout; }
void siminfo_close(void) { }
unsigned long _hash(unsigned long x) { return x * 2654435761u; }
#if MV_NEUTRON
#define MV_A(c) v ## c
#define MV_B(c) s ## c
#else
#define MV_A(c) k ## c
#define MV_B(c) E ## c
#endif
/* the members every ray has, by their names */
static void mv_members(_class_particle *p) {
  struct { char *name; double *at; } m[] = {{"x", &p->x}, {"y", &p->y}, {"z", &p->z}, {"t", &p->t}, {"p", &p->p},
#if MV_NEUTRON
    {"vx", &p->vx}, {"vy", &p->vy}, {"vz", &p->vz}, {"sx", &p->sx}, {"sy", &p->sy}, {"sz", &p->sz},
#else
    {"kx", &p->kx}, {"ky", &p->ky}, {"kz", &p->kz}, {"phi", &p->phi}, {"Ex", &p->Ex}, {"Ey", &p->Ey}, {"Ez", &p->Ez},
#endif
    {"_mctmp_a", &p->_mctmp_a}, {"_mctmp_b", &p->_mctmp_b}, {"_mctmp_c", &p->_mctmp_c}};
  int n = sizeof m / sizeof m[0];
  for (int i = 0; i < n; ++i) {
    int s = 7, bad = 0;
    double old = *m[i].at, new = 1234.5 + i;
    _class_particle before;
    memcpy(&before, p, sizeof before);
    *m[i].at = new;
    if (particle_getvar(p, m[i].name, &s) != new || s) bad |= 1;
    s = 7;
    if (particle_getvar_void(p, m[i].name, &s) != (void *) m[i].at || s) bad |= 2;
    *m[i].at = old;
    if (particle_setvar_void(p, m[i].name, &new) || *m[i].at != new) bad |= 4;
    *m[i].at = old;
    if (memcmp(&before, p, sizeof before)) bad |= 8;
    if (bad) mv_log(" badmember_%s=%d", m[i].name, bad);
    memcpy(p, &before, sizeof before);
  }
}
static unsigned long mv_draw(_class_particle *p) {
  p->randstate[0] = p->randstate[0] * 6364136223846793005u + 1442695040888963407u;
  return p->randstate[0] >> 16 & 0xffffff;
}
void mv_trace(const char *name, long index, _class_particle *p, Coords pos, Rotation rot) {
#if MV_NEUTRON
  mv_log("trace %s %ld %lld %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %d", name, index, p->_uid, p->x, p->y, p->z,
         p->vx, p->vy, p->vz, p->sx, p->sy, p->sz, p->t, p->p, (int)(p->mcgravitation + p->allow_backprop + (p->mcMagnet != NULL)));
#else
  mv_log("trace %s %ld %lld %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g", name, index, p->_uid, p->x, p->y, p->z,
         p->kx, p->ky, p->kz, p->Ex, p->Ey, p->Ez, p->t, p->p, p->phi);
#endif
  mv_log(" | %.17g %.17g %.17g", pos.x, pos.y, pos.z);
  for (int i = 0; i < 9; ++i) mv_log(" %.17g", rot[i / 3][i % 3]);
  mv_log(" | rand=%lu", mv_draw(p));
  mv_members(p);
}
void mv_told(const char *name, _class_particle *p) {
#if MV_NEUTRON
  mv_log("told %s %lld %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g\n", name, p->_uid, p->x, p->y, p->z,
         p->vx, p->vy, p->vz, p->sx, p->sy, p->sz, p->t, p->p);
#else
  mv_log("told %s %lld %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g\n", name, p->_uid, p->x, p->y, p->z,
         p->kx, p->ky, p->kz, p->Ex, p->Ey, p->Ez, p->t, p->p);
#endif
}
static double mv_start(long n, int k) { return ((n * 37 + k * 11) % 23 - 11) * 0.137 + k * 0.01; }
static _class_particle mv_fresh(double x, double y, double z, double a, double b, double c, double t, double d, double e, double f, double p, double phi) {
  _class_particle q;
  memset(&q, 0x5a, sizeof q);
  mv_log("new %g %g %g %g %g %g %g %g %g %g %g %g\n", x, y, z, a, b, c, t, d, e, f, p, phi);
  long n = mv_rays++;
  q.x = x + mv_start(n, 0); q.y = y + mv_start(n, 1); q.z = z + mv_start(n, 2);
  q.MV_A(x) = a + mv_start(n, 3); q.MV_A(y) = b + mv_start(n, 4); q.MV_A(z) = c + mv_start(n, 5);
  q.MV_B(x) = d + mv_start(n, 6); q.MV_B(y) = e + mv_start(n, 7); q.MV_B(z) = f + mv_start(n, 8);
  q.t = t; q.p = p;
  q._index = 1; q._absorbed = 0; q._scattered = 0; q._restore = 0; q.flag_nocoordschange = 0;
  q._mctmp_a = q._mctmp_b = q._mctmp_c = 0;
  return q;
}
