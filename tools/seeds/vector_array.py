F = "common/include/rofl/common/vector_array.h"
H = '#include <cstddef>\n#include <cstdlib>\n#include <array>\n#include <rofl/common/vector_array.h>\nusing namespace rofl;\n'
SEEDS = [
 dict(id="C26-iadd-four", property="C26", needs="a vector of more than three components added in place", breaks="the components from the fourth on are left out of +=",
      edits=[(F, "		Type& operator+=(const Type& other) {\n			for (size_t d = 0; d < Dim; ++d) {", "		Type& operator+=(const Type& other) {\n			for (size_t d = 0; d < Dim && d < 3; ++d) {")],
      demo=H + 'int main(){ VectorArray<double, 4> a, b; for (int i = 0; i < 4; ++i) { a(i) = i; b(i) = 10; } a += b; return a(3) == 13 ? 0 : 1; }\n'),
 dict(id="C26-imul-self", property="C26", needs="a vector multiplied in place by itself", breaks="v *= v leaves v as it was",
      edits=[(F, "		Type& operator*=(const Type& other) {\n			for (size_t d = 0; d < Dim; ++d) {", "		Type& operator*=(const Type& other) {\n			for (size_t d = 0; d < Dim && this != &other; ++d) {")],
      demo=H + 'int main(){ VectorArray<int, 2> a; a(0) = 3; a(1) = 4; a *= a; return a(0) == 9 && a(1) == 16 ? 0 : 1; }\n'),
]
