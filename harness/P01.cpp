// P01: String editing against a std::u16string model, histories over several strings
#include "string_history.hpp"
static void run(Src& s, Ctx& ctx) { strhist::run(s, ctx, false); }
const Def& pbt::definition()
{
	static Def d{"P01", "histories of 1..41 operations over 4 strings (construction, copy, assignment, editing, searching, also with the string itself as argument and with indices outside), each compared with a std::u16string model after every step. Non-trivial: at least two edits; distinct by choice sequence.", 900000, 6000000, jmInit, run};
	d.assumptions = {"Case mapping and white space per character are taken from jm::Char (decided by P41).", "Searching for and replacing the empty string only has to terminate."};
	return d;
}
