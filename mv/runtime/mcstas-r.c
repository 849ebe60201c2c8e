_class_particle mcsetstate(double x, double y, double z, double vx, double vy, double vz, double t, double sx, double sy, double sz, double p,
                           int mcgravitation, void *mcMagnet, int allow_backprop) {
  _class_particle q = mv_fresh(x, y, z, vx, vy, vz, t, sx, sy, sz, p, 0);
  q.mcgravitation = mcgravitation; q.mcMagnet = mcMagnet; q.allow_backprop = allow_backprop;
  return q;
}
