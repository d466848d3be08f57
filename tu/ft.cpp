#include "/repo/core/src/function_tree/node.cpp"
#include "/repo/core/src/function_tree/operators/arithmetic.cpp"
#include "/repo/core/src/function_tree/operators/operator.cpp"
#include "/repo/core/src/function_tree/operators/trig.cpp"
#include "/repo/core/src/function_tree/roots/function.cpp"
#include "/repo/core/src/function_tree/roots/jacobian.cpp"
#include "/repo/core/src/function_tree/symbols/differential.cpp"
#include "/repo/core/src/function_tree/symbols/number.cpp"
#include "/repo/core/src/function_tree/symbols/special_number.cpp"
#include "/repo/core/src/function_tree/symbols/symbol.cpp"
#include "/repo/core/src/function_tree/symbols/variable.cpp"
