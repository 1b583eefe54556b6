// The fields of an options record, in the order used by the specification.
template <class O> static void setOpts(O* o, const Vd& x) {
  o->sigma0 = x[0]; o->sigma_max = x[1]; o->sigma_min = x[2]; o->alpha = x[3]; o->beta = x[4]; o->eta = x[5];
  o->delta = x[6]; o->gamma = x[7]; o->abs_tol = x[8]; o->rel_tol = x[9]; o->stall_tol = x[10]; o->infeas_tol = x[11];
  o->inner_tol_max = x[12]; o->inner_tol_min = x[13]; o->max_newton_iters = (int)x[14]; o->max_prox_iters = (int)x[15];
  o->max_inner_iters = (int)x[16]; o->max_linesearch_iters = (int)x[17]; o->check_feasibility = x[18] != 0;
  o->nonmonotone_linesearch = x[19] != 0; o->display_level = (Display)(int)x[20];
}
template <class O> static Vd getOpts(const O& o) {
  return Vd{o.sigma0, o.sigma_max, o.sigma_min, o.alpha, o.beta, o.eta, o.delta, o.gamma, o.abs_tol, o.rel_tol, o.stall_tol,
    o.infeas_tol, o.inner_tol_max, o.inner_tol_min, (double)o.max_newton_iters, (double)o.max_prox_iters, (double)o.max_inner_iters,
    (double)o.max_linesearch_iters, (double)o.check_feasibility, (double)o.nonmonotone_linesearch, (double)(int)o.display_level};
}
