#include <vector>
struct FormName { int id; const char* name; };
#define F(...) {__LINE__, #__VA_ARGS__},
static const FormName n0[] = {
#include "forms_unary.inc"
};
static const FormName n1[] = {
#include "forms_arith.inc"
};
static const FormName n2[] = {
#include "forms_func.inc"
};
static const FormName n3[] = {
#include "forms_deep.inc"
};
const std::vector<FormName>& formNames(int g)
{
    static const std::vector<FormName> v[4] = {
        {n0, n0 + sizeof n0 / sizeof *n0}, {n1, n1 + sizeof n1 / sizeof *n1}, {n2, n2 + sizeof n2 / sizeof *n2}, {n3, n3 + sizeof n3 / sizeof *n3}};
    return v[g];
}
