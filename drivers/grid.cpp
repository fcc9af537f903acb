#include "grid.hpp"
using namespace dso;
#define DRV extern "C"
typedef TwoDimGrid<GridAxis::X> GX;
typedef TwoDimGrid<GridAxis::Y> GY;
template <class G> static inline void all(const G &g, double x, double y, long *l) {
  l[0] = g.line(x, y);
  g.surrounding_nodes(x, y, l[1], l[2], l[3], l[4]);
}
template <class G> static inline void node(const G &g, long i, double *o) {
  auto n = g.xyindex2node(i);
  o[0] = n.x; o[1] = n.y; o[2] = g.xstep(); o[3] = g.ystep(); o[4] = g.xstop(); o[5] = g.ystop();
}
#define PAR double x0, double dx, int nx, double y0, double dy, int ny
#define ARG x0, dx, nx, y0, dy, ny
DRV void drv_find_x(PAR, double x, double y, long *l) { all(GX(ARG), x, y, l); }
DRV void drv_find_y(PAR, double x, double y, long *l) { all(GY(ARG), x, y, l); }
DRV void drv_node_x(PAR, long i, double *o) { node(GX(ARG), i, o); }
DRV void drv_node_y(PAR, long i, double *o) { node(GY(ARG), i, o); }
DRV long drv_default_x(double x, double y) { return GX().line(x, y); }
DRV long drv_default_y(double x, double y) { return GY().line(x, y); }
