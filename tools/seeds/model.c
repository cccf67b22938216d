// stands for the robot's model library: copies its frame argument, or its load, to the output
#define Z(n) void n(double *o) { for (int i = 0; i < 42; i++) o[i] = 0; }
#define A(n, k) void n(const double *q, double *o) { for (int i = 0; i < k; i++) o[i] = i < 7 ? q[i] : 0; }
#define B(n, k) void n(const double *q, const double *t, double *o) { for (int i = 0; i < k; i++) o[i] = i < 16 ? t[i] : 0; }
Z(Ji_J_J1) A(Ji_J_J2, 42) A(Ji_J_J3, 42) A(Ji_J_J4, 42) A(Ji_J_J5, 42) A(Ji_J_J6, 42) A(Ji_J_J7, 42) A(Ji_J_J8, 42) B(Ji_J_J9, 42)
Z(O_J_J1) A(O_J_J2, 42) A(O_J_J3, 42) A(O_J_J4, 42) A(O_J_J5, 42) A(O_J_J6, 42) A(O_J_J7, 42) A(O_J_J8, 42) B(O_J_J9, 42)
A(O_T_J1, 16) A(O_T_J2, 16) A(O_T_J3, 16) A(O_T_J4, 16) A(O_T_J5, 16) A(O_T_J6, 16) A(O_T_J7, 16) A(O_T_J8, 16) B(O_T_J9, 16)
void M_NE(const double *q, const double *I, double m, const double *x, double *o) { for (int i = 0; i < 49; i++) o[i] = m; }
void c_NE(const double *q, const double *dq, const double *I, double m, const double *x, double *o) { for (int i = 0; i < 7; i++) o[i] = m; }
void g_NE(const double *q, const double *g, double m, const double *x, double *o) { for (int i = 0; i < 7; i++) o[i] = m; }
