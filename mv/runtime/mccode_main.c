static long long mv_ncount = 1;
long long mcget_ncount(void) { return mv_ncount; }
#ifdef FUNNEL
long sort_absorb_last(_class_particle *particles, _class_particle *pbuffer, long len, long buffer_len, long flag_split, long *multiplier) {
  *multiplier = 1; return len;
}
#endif
static int mv_set(struct mcinputtable_struct *e, const char *text) {
  char *end = NULL;
  if (e->type == instr_type_double) *(double *) e->par = strtod(text, &end);
  else if (e->type == instr_type_int) *(int *) e->par = (int) strtol(text, &end, 10);
  else if (e->type == instr_type_string) { *(char **) e->par = strdup(text); return 1; }
  else return 0;
  return end && *end == 0 && end != text;
}
int mccode_main(int argc, char *argv[]) {
  unsigned long seed = 1;
  int saves = 0, dump = 0;
  char *given[256]; int ngiven = 0;
  if (getenv("MV_LOG")) { mv_out = fopen(getenv("MV_LOG"), "w"); if (!mv_out) return 98; }
  memset(&_instrument_var._parameters, 0x5a, sizeof _instrument_var._parameters);
  for (int i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "-n")) mv_ncount = atoll(argv[++i]);
    else if (!strcmp(argv[i], "-s")) seed = strtoul(argv[++i], NULL, 10);
    else if (!strcmp(argv[i], "--trace")) mcdotrace = 1;
    else if (!strcmp(argv[i], "--save")) saves = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--dump")) dump = 1;
    else given[ngiven++] = argv[i];
  }
  if (dump) {
    mv_log("table"); mv_int("n", numipar); mv_str("instrument", instrument_name); mv_str("source", instrument_source); mv_int("ncomp", mcNUMCOMP); mv_int("trace", traceenabled); mv_end();
    mv_log("code"); mv_str("text", instrument_code); mv_end();
    for (int i = 0; i < numipar; ++i) {
      mv_log("par"); mv_str("name", mcinputtable[i].name); mv_int("type", mcinputtable[i].type - instr_type_int);
      mv_str("val", mcinputtable[i].val); mv_str("unit", mcinputtable[i].unit); mv_end();
    }
    if (mcinputtable[numipar].name != NULL) mv_log("table-not-terminated\n");
    mv_metadata();
  }
  for (int i = 0; i < numipar; ++i) {
    int done = 0;
    size_t n = strlen(mcinputtable[i].name);
    for (int k = 0; k < ngiven; ++k)
      if (!strncmp(given[k], mcinputtable[i].name, n) && given[k][n] == '=') done = mv_set(mcinputtable + i, given[k] + n + 1) ? 1 : -1;
    if (!done && mcinputtable[i].val && *mcinputtable[i].val) done = mv_set(mcinputtable + i, mcinputtable[i].val) ? 1 : -1;
    if (done != 1) mv_log("unset %s\n", mcinputtable[i].name);
  }
  init();
  if (dump) {
    for (int i = 1; i <= mcNUMCOMP; ++i) {
      Coords a = POS_A_COMP_INDEX(i), b = POS_R_COMP_INDEX(i);
      mv_log("position %d %.17g %.17g %.17g %.17g %.17g %.17g\n", i, a.x, a.y, a.z, b.x, b.y, b.z);
    }
  }
  mcgravitation = 3; mcallowbackprop = 4;
#ifdef FUNNEL
  raytrace_all_funnel(mv_ncount, seed);
#else
  raytrace_all(mv_ncount, seed);
#endif
  for (int i = 0; i < saves; ++i) { mv_log("save-requested\n"); save(NULL); }
  mv_log("finish\n");
  finally();
  for (int i = 0; i < numipar; ++i) if (mcinputtable[i].type == instr_type_string) free(*(char **) mcinputtable[i].par);
  mv_log("exit\n");
  if (mv_out) fclose(mv_out);
  return 0;
}
