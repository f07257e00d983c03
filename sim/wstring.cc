// libstdc++'s shared library holds std::wstring for a 4-byte wchar_t; the
// product is built with the 2-byte wchar_t of Windows, so every member is
// instantiated here and takes precedence.
#include <string>
#include <vector>
template class std::basic_string<wchar_t>;
template std::wstring::basic_string<>(const wchar_t *, const std::allocator<wchar_t> &);
