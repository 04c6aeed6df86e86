// Driver for the IIR designer. Compiled, never linked or executed.
#ifdef VP_ORDER
#define private public
#include "pandaresampler/hiir/PolyphaseIir2Designer.h"
#undef private
#endif
#include "pandaresampler/hiir/PolyphaseIir2Designer.cpp"
typedef PandaResampler::hiir::PolyphaseIir2Designer D;
extern "C" {
int vp_gdly (double *c, double *att, double *tr, int n, double gd, double f, double prec, double alb, double aub, double tlb, double tub)
{ return D::compute_coefs_spec_order_gdly (c, att, tr, n, gd, f, prec, alb, aub, tlb, tub); }
void vp_tbw (double *c, int n, double t) { D::compute_coefs_spec_order_tbw (c, n, t); }
int vp_coefs (double *c, double a, double t) { return D::compute_coefs (c, a, t); }
int vp_nbr (double a, double t) { return D::compute_nbr_coefs_from_proto (a, t); }
double vp_gd (const double *c, int n, double f, bool ph) { return D::compute_group_delay (c, n, f, ph); }
double vp_gd1 (double a, double f, bool ph) { return D::compute_group_delay (a, f, ph); }
double vp_phase (double a, double f) { return D::compute_phase_delay (a, f); }
double vp_atten (int n, double t) { return D::compute_atten_from_order_tbw (n, t); }
#ifdef VP_ORDER
int vp_order (double a, double q) { return D::compute_order (a, q); }
#endif
#ifdef VP_POW
double vp_ipowp (double x, long n) { return PandaResampler::hiir::ipowp (x, n); }
#endif
int vp_OK () { return D::ResCode_OK; }
}
