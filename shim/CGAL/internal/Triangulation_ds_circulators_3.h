#include <CGAL/TDS_3/internal/Triangulation_ds_circulators_3.h>
