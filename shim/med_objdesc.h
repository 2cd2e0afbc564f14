// libmed 4.1.0 (the one installed here) does not have the three functions of libmed 4.2 by which src/MEDLoader
// stores the description of a field. They are supplied here: the description is an attribute of the HDF5 group
// of the field.
#ifndef VERIF_MED_OBJDESC_H
#define VERIF_MED_OBJDESC_H
#include <cstring>
#include <string>
#include <med.h>
#include <hdf5.h>
#define VERIF_DES "VERIF_DES"
static inline std::string
verifObjPath(const char *name)
{
    std::string n(name, strnlen(name, MED_NAME_SIZE));
    while (!n.empty() && n[n.size() - 1] == ' ') n.resize(n.size() - 1);
    return "/CHA/" + n;
}
static inline med_err
MEDfileObjectDescriptionExist(med_idt fid, int, const char *name, med_bool *exist)
{
    H5E_auto2_t f;
    void *d;
    H5Eget_auto2(H5E_DEFAULT, &f, &d);
    H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
    *exist = H5Aexists_by_name((hid_t)fid, verifObjPath(name).c_str(), VERIF_DES, H5P_DEFAULT) > 0 ? MED_TRUE : MED_FALSE;
    H5Eset_auto2(H5E_DEFAULT, f, d);
    return 0;
}
static inline med_err
MEDfileObjectDescriptionWr(med_idt fid, int, const char *name, const char *desc)
{
    std::string p(verifObjPath(name)), t(desc, strnlen(desc, MED_COMMENT_SIZE));
    t.resize(MED_COMMENT_SIZE, '\0');
    med_bool e;
    MEDfileObjectDescriptionExist(fid, 0, name, &e);
    if (e && H5Adelete_by_name((hid_t)fid, p.c_str(), VERIF_DES, H5P_DEFAULT) < 0)
        return -1;
    hid_t ty(H5Tcopy(H5T_C_S1));
    H5Tset_size(ty, MED_COMMENT_SIZE);
    hid_t sp(H5Screate(H5S_SCALAR));
    hid_t at(H5Acreate_by_name((hid_t)fid, p.c_str(), VERIF_DES, ty, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT));
    med_err r(-1);
    if (at >= 0)
    {
        r = H5Awrite(at, ty, t.data()) < 0 ? -1 : 0;
        H5Aclose(at);
    }
    H5Sclose(sp);
    H5Tclose(ty);
    return r;
}
static inline med_err
MEDfileObjectDescriptionRd(med_idt fid, int, const char *name, char *desc)
{
    hid_t at(H5Aopen_by_name((hid_t)fid, verifObjPath(name).c_str(), VERIF_DES, H5P_DEFAULT, H5P_DEFAULT));
    if (at < 0)
        return -1;
    std::string t(MED_COMMENT_SIZE, '\0');
    hid_t ty(H5Tcopy(H5T_C_S1));
    H5Tset_size(ty, MED_COMMENT_SIZE);
    med_err r(H5Aread(at, ty, &t[0]) < 0 ? -1 : 0);
    H5Tclose(ty);
    H5Aclose(at);
    memcpy(desc, t.data(), MED_COMMENT_SIZE);
    return r;
}
#endif
