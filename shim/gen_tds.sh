#!/bin/bash
# Generates stand-ins for the repository's copies of CGAL 4.x's triangulation data structures
# (include/mods/Indexed_Triangulation_data_structure_{2,3}.h do not compile against the installed CGAL 5.6).
# They are CGAL 5.6's own TDS with the one change the repository made to its copies: every face/cell
# is constructed with a reference to an index handler, and maxId()/disableId() expose that handler.
# usage: gen_tds.sh OUTDIR
set -e
out=$1; mkdir -p "$out/mods"
for d in 2 3; do
  src=/usr/include/CGAL/Triangulation_data_structure_$d.h
  dst=$out/mods/Indexed_Triangulation_data_structure_$d.h
  if [ $d = 2 ]; then
    ih='typedef _detail::IndexHandler Ih;'
    tmpl='template<class Vb = Triangulation_ds_vertex_base_2<>, class Fb = Triangulation_ds_face_base_2<>, class Ih_ = _detail::IndexHandler> using Indexed_Triangulation_data_structure_2 = VshimTDS_2<Vb, Fb>;'
  else
    ih='typedef typename std::conditional<std::is_convertible<Concurrency_tag_, Parallel_tag>::value, _detail::Concurrent_IndexHandler, _detail::IndexHandler>::type Ih;'
    tmpl='template<class Vb = Triangulation_ds_vertex_base_3<>, class Cb = Triangulation_ds_cell_base_3<>, class Ct = Sequential_tag, class Ih_ = _detail::IndexHandler> using Indexed_Triangulation_data_structure_3 = VshimTDS_3<Vb, Cb, Ct>;'
  fi
  sed -E \
    -e "s/CGAL_TRIANGULATION_DATA_STRUCTURE_${d}_H/VSHIM_TDS_${d}_H/" \
    -e "/^#include <CGAL\/Triangulation_data_structure_${d}_fwd/d" \
    -e "s/\\bTriangulation_data_structure_$d\\b/VshimTDS_$d/g" \
    -e "s/faces\(\)\.emplace\(\)/faces().emplace(_indexHandler)/; s/cells\(\)\.emplace\(\)/cells().emplace(_indexHandler)/" \
    -e "s/(faces\(\)\.emplace\(v1, v2, v3[^)]*)\);/\1, _indexHandler);/; s/(cells\(\)\.emplace\(v0, v1, v2, v3[^)]*)\);/\1, _indexHandler);/" \
    -e "s/cells\(\)\.emplace\(v0, v1, v2, Vertex_handle\(\)\)/cells().emplace(v0, v1, v2, Vertex_handle(), _indexHandler)/" \
    -e "s/^( +f2, f3, f1)\);/\1, _indexHandler);/; s/^( +f2, Face_handle\(\), f1)\);/\1, _indexHandler);/" \
    -e "s/\\bDefault_(vertex|face|cell)_converter\\b/VshimDefault_\1_converter/g; s/\\bTriangulation_(default_data_structure_2|data_structure_using_list_2)\\b/VshimTria_\1/g" "$src" > "$dst.tmp"
  python3 - "$dst.tmp" "$dst" "$d" "$ih" "$tmpl" <<'P'
import sys,re
src,dst,d,ih,tmpl=sys.argv[1:]
s=open(src).read()
# handler declared right after the class opening, hence constructed first and destroyed last
m=re.search(r'\nclass VshimTDS_%s\s*\n?\s*:\s*public [A-Za-z_0-9]+\s*\{'%d,s)
assert m
s=s[:m.end()]+"\n public:\n  "+ih+"\n  mutable Ih _indexHandler;\n  auto maxId() const { return _indexHandler.maxId(); }\n  void disableId() { _indexHandler.disable(); }\n private:\n"+s[m.end():]
i=s.rindex('} //namespace CGAL') if '} //namespace CGAL' in s else s.rindex('} // namespace CGAL')
# drop stream operators' namespace end and append alias
s=s[:i]+tmpl+"\n"+s[i:]
s=s.replace('#include <CGAL/Unique_hash_map.h>','#include <CGAL/Unique_hash_map.h>\n#include "CGALTriangulator.h"\n#include "utils/IndexHandler.h"',1)
assert '"CGALTriangulator.h"' in s
open(dst,'w').write(s)
P
  rm -f "$dst.tmp"
done
