#pragma once
extern "C" {
typedef double SpiceDouble; typedef int SpiceInt; typedef char SpiceChar; typedef const char ConstSpiceChar; typedef int SpiceBoolean;
double unitim_c(double, const char *, const char *);
void spkezp_c(int, double, const char *, const char *, int, double *, double *);
void spkezr_c(const char *, double, const char *, const char *, const char *, double *, double *);
void bodvrd_c(const char *, const char *, int, int *, double *);
void ktotal_c(const char *, int *);
void kdata_c(int, const char *, int, int, int, char *, char *, char *, int *, int *);
void furnsh_c(const char *);
}
