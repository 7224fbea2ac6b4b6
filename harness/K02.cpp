// K02: bliss_hits_to_dat and bliss_generate_channelizer_response as programs.
#include "args.hpp"
#include <file_types/cpnp_files.hpp>
#include <file_types/dat_file.hpp>
#include <preprocess/passband_static_equalize.hpp>
#include <fstream>
using namespace bliss;
int to_dat_main(int, char **) __asm__("to_dat_main"); int response_main(int, char **) __asm__("response_main");
static std::string read_from, written_to; static int reads = 0, writes = 0; static double tag = 0; static int fail = 0;
scan bliss::read_scan_hits_from_capnp_file(std::string_view p) { ++reads; read_from = std::string(p); if (fail == 1) throw std::runtime_error("no such file"); std::map<int, std::shared_ptr<coarse_channel>> m; m[0] = std::make_shared<coarse_channel>(1000., -1e-6, (int64_t)20, (int64_t)32, (int64_t)8, (int64_t)4, (int64_t)1, std::string("x"), 1., 2., (int64_t)6, 18., 1234.5, (int64_t)1, 0.0, 0.0, (int64_t)0); m[0]->set_hits(std::list<hit>()); return scan(m); }
void bliss::write_scan_hits_to_dat_file(scan s, std::string_view p) { ++writes; written_to = std::string(p); tag = s.tstart(); if (fail == 2) throw std::runtime_error("disk full"); }
static int fine, coarse, taps, made = 0; static float value;
bland::ndarray bliss::gen_coarse_channel_response(int f, int c, int t, std::string, std::string) { ++made; fine = f; coarse = c; taps = t; bland::ndarray a({2}, bland::ndarray::datatype("float"), CPU()); a.data_ptr<float>()[0] = value; a.data_ptr<float>()[1] = -value; return a; }
static std::string base(const std::string &p) { auto s = p.rfind('/'); return s == p.npos ? p : p.substr(s + 1); }
ENTRY e_listing() { // what is read from the input is listed in the output
    static const char *ins[][2] = {{"hits.capnp", "hits.dat"}, {"/data/on.1.cp", "on.1.dat"}, {"dir.x/scan", "scan.dat"}, {"./a.dat", "a.dat"}}; int k = vf_pick("input", 0, 3), form = vf_pick("form", 0, 1), o = vf_pick("output", 0, 4); static const char *outs[] = {"", "x/list.dat", "listing", "-", "stdout"};
    std::string in = ins[k][0], out = outs[o]; auto i = [&] { line.push_back(form ? "-i" : "--input"); line.push_back(in); }; bool first = vf_pick("order", 0, 1); if (first) i(); if (o) { line.push_back(form ? "-o" : "--output"); line.push_back(out); } if (!first) i();
    vf_check(run(to_dat_main, "bliss_hits_to_dat") == 0, "success"); vf_check(reads == 1 && read_from == in, "the input is read"); bool file = o < 3; vf_check(writes == file, "and listed once"); if (file) { vf_check(written_to == (o ? out : std::string(ins[k][1])), "in the file asked for, else one named after the input"); vf_check(tag == 1234.5, "what was read is listed"); } vf_cover("end");
}
ENTRY e_listing_refused() {
    int k = vf_pick("case", 0, 3); if (k == 0) run(to_dat_main, "x"); if (k == 1) { line = {"--help"}; run(to_dat_main, "x"); } if (k < 2) { vf_check(!reads && !writes, "nothing to convert"); vf_cover("end"); return; }
    fail = k - 1; line = {"-i", "a.cp"}; bool failed = false; try { failed = run(to_dat_main, "x") != 0; } catch (...) { failed = true; } vf_check(failed, "a failure is reported"); vf_cover("end");
}
static void response(int f, int c, int t, const std::string &out) {
    vf_check(made == 1 && (fine == f) & (coarse == c) & (taps == t), "the response asked for"); std::ifstream in(out, std::ios::binary); float x[2] = {}; in.read((char *)x, sizeof x); vf_check(in.gcount() == sizeof x, "its samples are written"); vf_check((x[0] == value) & (x[1] == -value), "as they are"); char c1; in.read(&c1, 1); vf_check(in.gcount() == 0, "and nothing else");
}
ENTRY e_response() { value = vf_realf("sample", -1000, 1000); int f = 1048576, c = 256, t = 12; std::string out = "channelizer_response.f32"; int form = vf_pick("form", 0, 1), given = vf_pick("options", 0, 31);
    auto n = [&](const char *s, const char *l, int &v) { v = vf_int(l, -2147483648ll, 2147483647); line.push_back(form ? s : l); line.push_back(given_int(v)); }; if (given & 1) n("-M", "--number-coarse", c); if (given & 2) n("-f", "--nchan-per-coarse", f); if (given & 4) n("-N", "--taps-per-channel", t); if (given & 8) { out = "dir/h.f32"; line.push_back(form ? "-o" : "--output"); line.push_back(out); } if (given & 16) { line.push_back(form ? "-d" : "--device"); line.push_back("cpu"); }
    vf_check(run(response_main, "bliss_generate_channelizer_response") == 0, "success"); response(f, c, t, out); vf_cover("end");
}
