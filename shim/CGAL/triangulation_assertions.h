// CGAL 4.x header name; CGAL 5.6 folded these macros into <CGAL/assertions.h>
#pragma once
#include <CGAL/assertions.h>
#define CGAL_triangulation_assertion(EX) CGAL_assertion(EX)
#define CGAL_triangulation_assertion_msg(EX,MSG) CGAL_assertion_msg(EX,MSG)
#define CGAL_triangulation_assertion_code(CODE) CGAL_assertion_code(CODE)
#define CGAL_triangulation_precondition(EX) CGAL_precondition(EX)
#define CGAL_triangulation_precondition_msg(EX,MSG) CGAL_precondition_msg(EX,MSG)
#define CGAL_triangulation_precondition_code(CODE) CGAL_precondition_code(CODE)
#define CGAL_triangulation_postcondition(EX) CGAL_postcondition(EX)
#define CGAL_triangulation_expensive_assertion(EX) CGAL_expensive_assertion(EX)
#define CGAL_triangulation_expensive_precondition(EX) CGAL_expensive_precondition(EX)
#define CGAL_triangulation_expensive_precondition_code(CODE) CGAL_expensive_precondition_code(CODE)
#define CGAL_triangulation_expensive_postcondition(EX) CGAL_expensive_postcondition(EX)
