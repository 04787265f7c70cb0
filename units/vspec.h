/* Specification vocabulary shared by proof and execution. VG is the ghost witness: an arbitrary position, so that an
   assertion about *VG is an assertion about every position. VP*, VN* are ghost variables set by injected ghost code. */
#ifndef VSPEC_H
#define VSPEC_H
#define VALPHA(c) (((c)>='a'&&(c)<='z')||((c)>='A'&&(c)<='Z'))
#define VDIGIT(c) ((c)>='0'&&(c)<='9')
#define VSTART(c) (VALPHA(c)||(c)=='_')
#define VNAME(c) (VALPHA(c)||VDIGIT(c)||(c)=='-'||(c)=='_'||(c)=='.'||(c)==':'||(c)=='#')
#define VHEX(c) (VDIGIT(c)||((c)>='a'&&(c)<='f')||((c)>='A'&&(c)<='F'))
#define VWS(c) ((c)==' '||(c)=='\n'||(c)=='\t'||(c)=='\r')
#ifdef VH_PROOF
const char *VG, *VP1, *VP2, *VP3; size_t VN1, VN2, VN3, VN4, VN5, VN6; int VI1, VI2; _Bool VB1, VB2; size_t *VA, *VA2;
#endif
#endif
