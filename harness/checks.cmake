check(U01 jpputil)
check(A04 jppcore)
check(A05 jppcore)
check(A06 jppcore)
check(A07 jppcore)
check(A01 jppcore)
check(A02 jppcore)
check(A03 jppcore)
check(U03 jppcore jpputil)
check(U02 jppcore jpputil)
check(U04 jpputil)
check(D01 jppcore)
check(D02 jppcore)
check(S01 jppcore)
check(O01 jppjuman)
check(O02 jppjuman)
check(O03 jppjuman)
check(C01 jppjuman)
add_dependencies(chk_C01 jumanpp_v2)
check(C02 jppjuman)
check(T01 jpptrain)
check(T02 jpptrain)
check(T03 jpptrain)
check(T04 jpptrain jppjuman)
add_dependencies(chk_T04 jumanpp_v2_train)
check(R01 jppjuman)
add_dependencies(chk_R01 jumanpp_v2 jumanpp_v2_train)
check(A08 jppjuman)
target_link_libraries(chk_A08 -Wl,--whole-archive jppcore_dm jppcodegen -Wl,--no-whole-archive)
set_target_properties(chk_A08 PROPERTIES ENABLE_EXPORTS ON)
target_compile_definitions(chk_A08 PRIVATE VERIF_CXX="${CMAKE_CXX_COMPILER}")
