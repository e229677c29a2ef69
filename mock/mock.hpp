#pragma once
#include <petscmock.h>
#include <string>
#include <vector>
#include <utility>
#include <map>
namespace mock {
extern std::vector<std::pair<std::string, std::string>> options; extern const std::vector<std::pair<std::string, std::string>>* instead;   // used in place of options, if set
extern long calls, fail_at, errors_raised; extern bool failed; extern const char* failed_call; extern int ranks; extern bool fail_options;   // false: reading options never fails
Mat mat(int bs, int nb, const char* type, int* rp, int* ci, double* v, int* di, bool block);
void free_mat(Mat a);
KSP ksp(const char* pctype, Mat A);
int destroy(KSP k);     // the whole solver tree, as KSPDestroy does
bool content(Mat a, int& rows, int& cols, std::map<std::pair<int,int>, double>& v);   // false: not assembled
}
