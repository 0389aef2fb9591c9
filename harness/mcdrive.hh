// Runs one generated model; included after the generated code.
extern "C" int mc_drive(InstanceModel *(*create)(NodeKeeper *, const std::string &, const std::vector<std::string> &), const char *inst,
                        int next, const char **ext, int nnode, const char **names, const int *number, const int *ground,
                        int npar, const char **pname, const double *pval, int *pret,
                        int tran, double scl, int withmat, int nsol, const double *sol,
                        int maxout, int *mr, int *mc, double *mv, int *nm, int *rr, double *rv, int *nr, int *bad, int *asked) {
    NodeKeeper nk;
    for (int i = 0; i < nnode; ++i)
        nk.nodes[names[i]] = CircuitNodePtr(new CircuitNode{size_t(number[i]), ground[i] != 0});
    std::vector<std::string> e(ext, ext + next);
    std::unique_ptr<InstanceModel> m(create(&nk, inst, e));
    for (int i = 0; i < npar; ++i)
        pret[i] = m->addParam(pname[i], pval[i]);
    Values s;
    s.v.assign(sol, sol + nsol);
    dsMath::RealRowColValueVec<double> mat;
    dsMath::RHSEntryVec<double> rhs;
    if (tran)
        m->assembleTran_impl(scl, s, withmat ? &mat : nullptr, rhs);
    else
        m->assembleDC_impl(s, mat, rhs);
    if ((int)mat.size() > maxout || (int)rhs.size() > maxout)
        return 1;
    *nm = mat.size();
    *nr = rhs.size();
    for (size_t i = 0; i < mat.size(); ++i) {
        mr[i] = mat[i].row;
        mc[i] = mat[i].col;
        mv[i] = mat[i].val;
    }
    for (size_t i = 0; i < rhs.size(); ++i) {
        rr[i] = rhs[i].first;
        rv[i] = rhs[i].second;
    }
    *bad = s.bad + (nk.nodes.size() != (size_t)nnode);
    *asked = nk.asked.size();
    return 0;
}
