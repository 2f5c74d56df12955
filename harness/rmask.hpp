// Reference for reading through a mask
#ifndef RMASK_HPP
#define RMASK_HPP
#include "raster.hpp"
struct Masked { bool fail; G g; vector<int> sel /* cells selected by the mask, in the result's extent */, kept /* those holding a value */; int r0, c0; };
// first layer of s through mask m (cells of s are looked up at the centres of the mask's cells)
static Masked mask_ref(const G& s, const G& m, bool ext, bool calc, double dflt) {
    Masked o; o.fail = false; o.r0 = o.c0 = 0; bool dk = dflt != s.nd; int inside = 0, matched = 0, r0 = m.r, r1 = -1, c0 = m.c, c1 = -1; G full(m.r, m.c, 1, s.nd, m.x, m.y, m.cs);
    for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) { if (!m.has(i, j)) continue; int a, b; if (!s.locate(m.cx(j), m.cy(i), a, b)) continue; inside++;
        if (s.has(a, b)) { full.at(i, j) = s.at(a, b); matched++; r0 = std::min(r0, i); r1 = std::max(r1, i); c0 = std::min(c0, j); c1 = std::max(c1, j); } else if (dk) full.at(i, j) = dflt; }
    if (!inside || (!matched && (!ext || (calc && !dk)))) { o.fail = true; return o; }
    if (ext) { r0 = c0 = 0; r1 = m.r - 1; c1 = m.c - 1; }
    o.r0 = r0; o.c0 = c0; o.g = G(r1 - r0 + 1, c1 - c0 + 1, 1, s.nd, m.x + c0 * m.cs, m.y + (m.r - 1 - r1) * m.cs, m.cs);
    for (int i = r0; i <= r1; i++) for (int j = c0; j <= c1; j++) { o.g.at(i - r0, j - c0) = full.at(i, j); int id = (i - r0) * o.g.c + j - c0; if (m.has(i, j)) o.sel.push_back(id); if (full.at(i, j) != s.nd) o.kept.push_back(id); }
    return o;
}
// a stored list of cells is either every selected cell or every cell that holds a value
template <typename R> static const vector<int>* list_of(R* r, const Masked& o) { return r->PositionsCalculated() && r->GetCellNumber() == (int)o.sel.size() ? &o.sel : &o.kept; }
#endif
