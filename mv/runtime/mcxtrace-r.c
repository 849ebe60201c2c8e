_class_particle mcsetstate(double x, double y, double z, double kx, double ky, double kz, double phi, double t, double Ex, double Ey, double Ez,
                           double p, int mcgravitation, void *mcMagnet, int allow_backprop) {
  _class_particle q = mv_fresh(x, y, z, kx, ky, kz, t, Ex, Ey, Ez, p, phi);
  q.phi = phi;
  return q;
}
