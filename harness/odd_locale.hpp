// global C++ locale in which everything is different, for the time of life of the object;
// with it a Turkish 8 bit locale (decimal comma, another case conversion) for the C library, if check.py could make one
#pragma once

#include <clocale>

#include <locale>
#include <string>

namespace {
struct odd_numbers : std::numpunct<char> {
	char do_decimal_point() const override
	{
		return ',';
	}
	char do_thousands_sep() const override
	{
		return '_';
	}
	std::string do_grouping() const override
	{
		return "\1";
	}
	std::string do_truename() const override
	{
		return "yes";
	}
};

struct odd_ctype : std::ctype<char> {
	static const mask* table()
	{
		static mask t[table_size];
		const mask* c = classic_table();
		for (size_t i = 0; i != table_size; ++i) {
			t[i] = c[i];
		}
		// letters are spaces, spaces are letters
		for (char x : {'a', 'b', ',', '1', 'x'}) {
			t[size_t(x)] = mask(space | print);
		}
		for (char x : {' ', '\t', '\n', '\v', '\f', '\r'}) {
			t[size_t(x)] = mask(alpha | print);
		}
		return t;
	}
	odd_ctype() :
		std::ctype<char>(table())
	{}
};

struct odd_wctype : std::ctype<wchar_t> {
	bool do_is(mask m, wchar_t c) const override
	{
		if (m & space) {
			return c == L'a' || c == L'b' || c == L',';
		}
		return std::ctype<wchar_t>::do_is(m, c);
	}
};

struct odd_locale {
	std::locale old;
	locale_t old_c = locale_t(0);

	static locale_t turkish()
	{
		static locale_t l = newlocale(LC_ALL_MASK, "tr_TR.ISO-8859-9", locale_t(0));
		return l;
	}

	odd_locale()
	{
		if (turkish()) {
			this->old_c = uselocale(turkish());
		}
		std::locale l(std::locale::classic(), new odd_numbers);
		l = std::locale(l, new odd_ctype);
		l = std::locale(l, new odd_wctype);
		this->old = std::locale::global(l);
	}
	odd_locale(const odd_locale&) = delete;
	~odd_locale()
	{
		std::locale::global(this->old);
		if (this->old_c) {
			uselocale(this->old_c);
		}
	}
};
} // namespace
