// Drives the real simulation code through scenarios and records, after every stage, the part of
// the state that changed.  One JSON object per line; numbers with '.' or 'e' are reals.
// usage: harness SCENARIOS OUT.ndjson SCRATCHDIR
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <map>
#include <set>
#include <string>
#include <algorithm>
#include <array>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <csignal>
#include <sys/stat.h>

#include "tools.hpp"
#include "simulation/simulation.hpp"
#include "sampling/regular_sampling_particles.hpp"
#include "sampling/sampling_particles.hpp"
#include "objects/object_bump.hpp"
#include "objects/object_curve.hpp"
#include "objects/object_gate.hpp"
#include "objects/object_ground.hpp"
#include "objects/object_ramp.hpp"
#ifdef THREEDIM
#include "objects/object_silo.hpp"
#endif
#ifdef VERIF_VDB
#include "objects/object_vdb.hpp"
#include "sampling/sampling_particles_vdb.hpp"
#include "sampling/regular_sampling_particles_vdb.hpp"
#endif

extern "C" int fslog_on;
extern "C" void fslog_set(FILE*, const char* root, const char* sc);
extern std::string (*fslog_extra)();
extern "C" int racelog_count() __attribute__((weak));

static FILE* OUT;
static std::string SCRATCH;

static std::string num(double d){
    if (std::isnan(d)) return "\"NaN\"";
    if (std::isinf(d)) return d > 0 ? "\"Infinity\"" : "\"-Infinity\"";
    char b[40]; snprintf(b, sizeof b, "%.17g", d);
    std::string s = b;
    if (s.find_first_of(".e") == std::string::npos) s += ".0";
    return s;
}
static std::string js(double d){ return num(d); }
static std::string js(const TV& v){
    std::string s = "[";
    for (int k = 0; k < v.size(); k++){ if (k) s += ","; s += num(v(k)); }
    return s + "]";
}
static std::string js(const TM& m){
    std::string s = "[";
    for (int i = 0; i < m.rows(); i++){
        s += i ? ",[" : "[";
        for (int k = 0; k < m.cols(); k++){ if (k) s += ","; s += num(m(i,k)); }
        s += "]";
    }
    return s + "]";
}
template<class A> static std::string js(const std::vector<A>& v){
    std::string s = "[";
    for (size_t k = 0; k < v.size(); k++){ if (k) s += ","; s += js(v[k]); }
    return s + "]";
}

static const char* PM[] = {"NoPlasticity","VM","DP","DPSoft","MCC","VMVisc","DPVisc","MCCVisc","DPMui","MCCMui"};
static const char* HL[] = {"NoHard","ExpoExpl","ExpoImpl","SinhExpl","SinhImpl"};
static const char* EM[] = {"Hencky","NeoHookean"};
static const char* BCN[] = {"NoSlip","SlipStick","SlipFree"};
static const char* PT[] = {"top","bottom","left","right","front","back"};
template<int n> static int idx(const char* (&a)[n], const std::string& s){
    for (int k = 0; k < n; k++) if (s == a[k]) return k;
    if (s == "invalid") return 99;
    fprintf(stderr, "harness: unknown name %s\n", s.c_str()); _exit(3);
}
template<int n> static std::string nam(const char* (&a)[n], int k){ return k < n ? a[k] : "invalid"; }

// A user-defined terrain: half-space { X : n.X <= off }, as README invites users to write.
class ObjectPlane : public ObjectGeneral {
public:
    TV n; T off;
    ObjectPlane(BC b, T f, TV n_, T o) : ObjectGeneral(b, f, "plane"), n(n_.normalized()), off(o) {}
    bool inside(const TV& X) const override { return n.dot(X) <= off; }
    TV normal(const TV&) const override { return n; }
};

struct Obj { std::string kind, bc; double fr; std::vector<double> arg; };

struct Run {
    Simulation sim;
    std::string id;
    std::map<std::string, std::string> last;
    std::vector<Obj> objs;
    std::set<std::string> only;     // if non-empty: log only these stages
    std::set<std::string> drop;     // fields not to log
    bool have_dt = false, saving = false, inited = false, nowhere = false, unsaved = false;
    long events = 0, max_events = 20000;
    size_t bytes = 0, max_bytes = 20u << 20, max_event = 3u << 19;     // several times what any scenario needs: a run gone wild must not fill the disk
    std::set<std::string> seenply;
    std::string dir;

    void put(std::string& s, const char* name, const std::string& v){
        if (drop.count(name)) return;
        auto it = last.find(name);
        if (it != last.end() && it->second == v) return;
        last[name] = v;
        s += ",\""; s += name; s += "\":"; s += v;
    }
    void emit(const char* ev, const std::string& body){
        bytes += body.size();
        bool wild = body.size() > max_event || bytes > max_bytes;
        if (!wild) fprintf(OUT, "{\"ev\":\"%s\",\"sc\":\"%s\"%s}\n", ev, id.c_str(), body.c_str());
        if (wild || ++events > max_events){
            fprintf(OUT, "{\"ev\":\"toolong\",\"sc\":\"%s\"}\n", id.c_str());
            fflush(OUT); _exit(4);
        }
    }
    std::string plateState(){
        std::string q = "[";
        for (size_t k = 0; k < sim.plates.size(); k++){
            auto& p = *sim.plates[k];
            if (k) q += ",";
            q += "[" + num(p.pos_object) + "," + num(p.pos_lower) + "," + num(p.pos_upper) + "," + num(p.vx_object) + "," + num(p.vy_object);
            #ifdef THREEDIM
            q += "," + num(p.vz_object);
            #endif
            q += "]";
        }
        return q + "]";
    }
    std::string state(){
        std::string s;
        auto& P = sim.particles;
        put(s, "np", std::to_string(sim.Np));
        put(s, "exit", std::to_string(sim.exit));
        put(s, "grav", js(sim.gravity));
        put(s, "time", num(sim.verifTime()));
        put(s, "frame", std::to_string(sim.verifFrame()));
        put(s, "step", std::to_string(sim.verifStep()));
        if (have_dt) put(s, "dt", num(sim.verifDt()));
        put(s, "x", js(P.x)); put(s, "v", js(P.v)); put(s, "pic", js(P.pic)); put(s, "flip", js(P.flip));
        put(s, "B", js(P.Bmat)); put(s, "F", js(P.F)); put(s, "tau", js(P.tau));
        put(s, "epd", js(P.eps_pl_dev)); put(s, "epv", js(P.eps_pl_vol)); put(s, "epp", js(P.eps_pl_vol_pradhana));
        put(s, "dg", js(P.delta_gamma)); put(s, "visc", js(P.viscosity)); put(s, "mui", js(P.muI));
        auto& G = sim.verifGrid();
        put(s, "gx", js(G.x)); put(s, "gy", js(G.y));
        #ifdef THREEDIM
        put(s, "gz", js(G.z));
        #endif
        put(s, "gm", js(G.mass)); put(s, "gv", js(G.v)); put(s, "gf", js(G.flip)); put(s, "gfr", js(G.friction));
        put(s, "plates", plateState());
        return s;
    }
    void stage(const char* st){
        if (!strcmp(st, "dt")) have_dt = true;
        if (!only.empty() && !only.count(st)) return;
        int f = fslog_on; fslog_on = 0;
        emit(st, state());
        fslog_on = f;
        if (saving && (!strcmp(st, "start") || !strcmp(st, "clock") || !strcmp(st, "end"))) files();
    }
    std::string cfg(){
        std::string s;
        auto b = [&](const char* n, bool v){ s += std::string(",\"") + n + "\":" + (v ? "true" : "false"); };
        auto r = [&](const char* n, double v){ s += std::string(",\"") + n + "\":" + num(v); };
        auto i = [&](const char* n, long v){ s += std::string(",\"") + n + "\":" + std::to_string(v); };
        auto t = [&](const char* n, const std::string& v){ s += std::string(",\"") + n + "\":\"" + v + "\""; };
        i("dim", sim.dim); i("deg", SPLINEDEG); i("endf", sim.end_frame); i("threads", sim.n_threads);
        b("inited", inited); b("nowhere", nowhere); b("exit0", sim.exit != 0); b("partial", !only.empty() || !drop.empty()); b("pbc", sim.pbc); b("gspecial", sim.gravity_special); b("mibf", sim.use_mibf); b("musl", sim.use_musl);
        b("pradhana", sim.use_pradhana); b("duvaut", sim.use_duvaut_lions_formulation); b("saving", saving); b("savegrid", sim.save_grid);
        r("dx", sim.dx); r("pmass", sim.particle_mass); r("pvol", sim.particle_volume); r("mindt", sim.min_dt); r("fps", sim.fps);
        r("cfl", sim.cfl); r("cfle", sim.cfl_elastic); r("flip", sim.flip_ratio); r("rho", sim.rho); r("gtime", sim.gravity_time);
        r("Lx", sim.Lx); r("Ly", sim.Ly);
        #ifdef THREEDIM
        r("Lz", sim.Lz);
        #else
        r("Lz", 1);
        #endif
        r("E", sim.E); r("nu", sim.nu); r("stol", sim.stress_tolerance); r("xi", sim.xi); r("qmax", sim.q_max); r("qmin", sim.q_min);
        r("pmin", sim.p_min); r("M", sim.M); r("qcoh", sim.q_cohesion); r("vexp", sim.visc_exponent); r("vtime", sim.visc_time);
        r("beta", sim.beta); r("p0", sim.p0); r("rhos", sim.rho_s); r("gd", sim.grain_diameter); r("Iref", sim.I_ref);
        r("mu1", sim.mu_1); r("mu2", sim.mu_2); r("qpre", sim.q_prefac);
        b("hasref", sim.grid_reference_point[0] < 1e10);
        s += ",\"ref\":" + js(sim.grid_reference_point);
        s += ",\"g0\":" + js(sim.gravity);
        t("em", nam(EM, (int)sim.elastic_model)); t("pm", nam(PM, (int)sim.plastic_model)); t("hl", nam(HL, (int)sim.hardening_law));
        s += ",\"pls\":[";
        for (size_t k = 0; k < sim.plates.size(); k++){
            auto& p = *sim.plates[k];
            s += std::string(k ? "," : "") + "{\"type\":\"" + nam(PT, (int)p.plate_type) + "\",\"bc\":\"" + nam(BCN, (int)p.bc) + "\",\"fr\":" + num(p.friction)
              + ",\"vmin\":" + num(p.vmin_factor) + ",\"load\":" + num(p.load_factor) + ",\"v\":[" + num(p.vx_object_original) + "," + num(p.vy_object_original);
            #ifdef THREEDIM
            s += "," + num(p.vz_object_original);
            #endif
            s += "]}";
        }
        s += "],\"objs\":[";
        for (size_t k = 0; k < objs.size(); k++){
            auto& o = objs[k];
            s += std::string(k ? "," : "") + "{\"kind\":\"" + o.kind + "\",\"bc\":\"" + o.bc + "\",\"fr\":" + num(o.fr) + ",\"arg\":" + js(o.arg) + "}";
        }
        return s + "]";
    }
    void files();
};

// ---- saved files -----------------------------------------------------------------------------
static std::string slurp(const std::string& f){
    std::string s; FILE* h = ::fopen(f.c_str(), "rb"); if (!h) return s;
    char b[65536]; size_t n;
    while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n);
    ::fclose(h); return s;
}
// returns JSON members of a complete binary PLY of doubles, or "" if the file is not complete
static std::string parse_ply(const std::string& f){
    std::string s = slurp(f);
    size_t e = s.find("end_header\n");
    if (e == std::string::npos) return "";
    std::istringstream h(s.substr(0, e));
    std::string line; long n = -1; std::vector<std::string> props;
    while (std::getline(h, line)){
        std::istringstream l(line); std::string a, b, c; l >> a >> b >> c;
        if (a == "element") n = atol(c.c_str());
        if (a == "property"){ if (b != "double" && b != "float64") return ""; props.push_back(c); }
    }
    e += 11;
    if (n < 0 || s.size() - e != (size_t)n * props.size() * 8) return "";
    const char* d = s.data() + e;
    std::string o = ",\"n\":" + std::to_string(n) + ",\"names\":[";
    for (size_t k = 0; k < props.size(); k++) o += std::string(k ? ",\"" : "\"") + props[k] + "\"";
    o += "],\"rows\":[";
    for (long i = 0; i < n; i++){
        o += i ? ",[" : "[";
        for (size_t k = 0; k < props.size(); k++){ double v; memcpy(&v, d + (i*props.size() + k)*8, 8); o += (k ? "," : "") + num(v); }
        o += "]";
    }
    return o + "]";
}
static std::string jstr(const std::string& s){
    std::string o = "\"";
    for (char c : s){ if (c == '"' || c == '\\') o += '\\'; if (c == '\n') o += "\\n"; else o += c; }
    return o + "\"";
}
// what a reader would find on disk now: the frame the marker names, and whether frames 0..mark can be read
static std::string DIRNOW;
static std::string promise(){
    std::string m = slurp(DIRNOW + "/run/last_written.txt");
    long k = -1; char* end = nullptr;
    if (!m.empty() && isdigit((unsigned char)m[0])){ k = strtol(m.c_str(), &end, 10); }
    bool whole = true;
    for (long f = 0; f <= k && whole; f++) whole = !parse_ply(DIRNOW + "/run/particles_f" + std::to_string(f) + ".ply").empty();
    return ",\"mark\":" + std::to_string(k) + ",\"whole\":" + (whole ? "true" : "false");
}
void Run::files(){
    int f = fslog_on; fslog_on = 0;
    std::vector<std::string> names;
    DIR* D = opendir((dir + "/run").c_str());
    if (D){ while (dirent* e = readdir(D)) if (e->d_name[0] != '.') names.push_back(e->d_name); closedir(D); }
    std::sort(names.begin(), names.end());
    std::string s = ",\"names\":[";
    for (size_t k = 0; k < names.size(); k++) s += std::string(k ? "," : "") + jstr(names[k]);
    s += "],\"setup\":" + std::string(slurp(dir + "/run/initial_setup.cpp") == slurp(std::string(SRC_DIR) + "/mpm.cpp") ? "true" : "false");
    s += ",\"last\":" + jstr(slurp(dir + "/run/last_written.txt")) + ",\"info\":[";
    { std::istringstream i(slurp(dir + "/run/info.txt")); std::string t; bool c = false; while (i >> t){ s += (c ? "," : "") + num(atof(t.c_str())); c = true; } }
    s += "],\"timing\":[";
    { std::istringstream i(slurp(dir + "/run/info_timing.txt")); std::string t; bool c = false; while (i >> t){ s += (c ? "," : "") + num(atof(t.c_str())); c = true; } }
    s += "],\"plys\":[";
    bool c = false;
    for (auto& n : names) if (n.size() > 4 && n.substr(n.size()-4) == ".ply"){
        std::string raw = slurp(dir + "/run/" + n);
        std::string key = n + "/" + std::to_string(std::hash<std::string>()(raw));
        if (!seenply.insert(key).second) continue;
        std::string p = parse_ply(dir + "/run/" + n);
        if (p.empty()) p = ",\"n\":-1,\"names\":[],\"rows\":[]";
        s += std::string(c ? "," : "") + "{\"file\":" + jstr(n) + p + "}"; c = true;
    }
    emit("files", s + "]");
    fslog_on = f;
}

// ---- scenario interpreter --------------------------------------------------------------------
static void run_scenario(const std::vector<std::string>& lines, const std::string& id){
    Run R; R.id = id; Simulation& sim = R.sim;
    sim.reduce_verbose = true;
    sim.Np = 0; sim.dx = 1; sim.particle_mass = 1; sim.particle_volume = 1;
    sim.verif_observer = [&](const char* s){ R.stage(s); };
    bool noinit = false;
    #ifdef VERIF_VDB
    std::unique_ptr<ObjectVdb> vdb;
    #endif
    for (auto& line : lines){
        std::istringstream in(line); std::string k; in >> k;
        auto D = [&]{ std::string t; in >> t; return strtod(t.c_str(), nullptr); };
        auto S = [&]{ std::string t; in >> t; return t; };
        auto vecs = [&](std::vector<TV>& a){ for (auto& v : a) for (unsigned d = 0; d < sim.dim; d++) v(d) = D(); };
        auto mats = [&](std::vector<TM>& a){ for (auto& m : a) for (unsigned r = 0; r < sim.dim; r++) for (unsigned c = 0; c < sim.dim; c++) m(r,c) = D(); };
        auto scal = [&](std::vector<T>& a){ for (auto& v : a) v = D(); };
        if (k == "set"){
            std::string n = S();
            if (n == "pbc") sim.pbc = D();           else if (n == "gspecial") sim.gravity_special = D();
            else if (n == "mibf") sim.use_mibf = D(); else if (n == "musl") sim.use_musl = D();
            else if (n == "savegrid") sim.save_grid = D();
            else if (n == "pradhana") sim.use_pradhana = D(); else if (n == "duvaut") sim.use_duvaut_lions_formulation = D();
            else if (n == "threads") sim.n_threads = D(); else if (n == "endf") sim.end_frame = D();
            else if (n == "dx") sim.dx = D();         else if (n == "pmass") sim.particle_mass = D(); else if (n == "pvol") sim.particle_volume = D();
            else if (n == "mindt") sim.min_dt = D();  else if (n == "fps") sim.fps = D(); else if (n == "cfl") sim.cfl = D(); else if (n == "cfle") sim.cfl_elastic = D();
            else if (n == "flip") sim.flip_ratio = D(); else if (n == "rho") sim.rho = D(); else if (n == "gtime") sim.gravity_time = D();
            else if (n == "Lx") sim.Lx = D(); else if (n == "Ly") sim.Ly = D();
            #ifdef THREEDIM
            else if (n == "Lz") sim.Lz = D();
            #else
            else if (n == "Lz") D();
            #endif
            else if (n == "E") sim.E = D(); else if (n == "nu") sim.nu = D(); else if (n == "stol") sim.stress_tolerance = D(); else if (n == "xi") sim.xi = D();
            else if (n == "qmax") sim.q_max = D(); else if (n == "qmin") sim.q_min = D(); else if (n == "pmin") sim.p_min = D(); else if (n == "M") sim.M = D();
            else if (n == "qcoh") sim.q_cohesion = D(); else if (n == "vexp") sim.visc_exponent = D(); else if (n == "vtime") sim.visc_time = D();
            else if (n == "beta") sim.beta = D(); else if (n == "p0") sim.p0 = D(); else if (n == "rhos") sim.rho_s = D(); else if (n == "gd") sim.grain_diameter = D();
            else if (n == "Iref") sim.I_ref = D(); else if (n == "mu1") sim.mu_1 = D(); else if (n == "mu2") sim.mu_2 = D(); else if (n == "qpre") sim.q_prefac = D();
            else if (n == "em") sim.elastic_model = (ElasticModel)idx(EM, S()); else if (n == "pm") sim.plastic_model = (PlasticModel)idx(PM, S());
            else if (n == "hl") sim.hardening_law = (HardeningLaw)idx(HL, S());
            else if (n == "ref"){ for (unsigned d = 0; d < sim.dim; d++) sim.grid_reference_point(d) = D(); }
            else if (n == "grav"){ for (unsigned d = 0; d < sim.dim; d++) sim.gravity(d) = D(); }
            else if (n == "exit") sim.exit = D();
            else { fprintf(stderr, "harness: unknown parameter %s\n", n.c_str()); _exit(3); }
        }
        else if (k == "np"){ sim.Np = D(); sim.particles = Particles(sim.Np); }
        else if (k == "x") vecs(sim.particles.x);      else if (k == "v") vecs(sim.particles.v);
        else if (k == "F") mats(sim.particles.F);      else if (k == "B") mats(sim.particles.Bmat); else if (k == "tau") mats(sim.particles.tau);
        else if (k == "epd") scal(sim.particles.eps_pl_dev); else if (k == "epv") scal(sim.particles.eps_pl_vol);
        else if (k == "epp") scal(sim.particles.eps_pl_vol_pradhana); else if (k == "mui") scal(sim.particles.muI);
        else if (k == "plate"){
            double pos = D(); auto t = (PlateType)idx(PT, S()); auto b = (BC)idx(BCN, S());
            double fr = D(), lo = D(), up = D(), vx = D(), vy = D(), vz = D(), vm = D(), lf = D(); (void)vz;
            #ifdef THREEDIM
            sim.plates.push_back(std::make_unique<ObjectPlate>(pos, t, b, fr, lo, up, vx, vy, vz, vm, lf));
            #else
            sim.plates.push_back(std::make_unique<ObjectPlate>(pos, t, b, fr, lo, up, vx, vy, vm, lf));
            #endif
        }
        else if (k == "object"){
            Obj o; o.kind = S(); o.bc = S(); o.fr = D(); std::string t; while (in >> t) o.arg.push_back(strtod(t.c_str(), nullptr));
            auto b = (BC)idx(BCN, o.bc);
            if (o.kind == "ground") sim.objects.push_back(std::make_unique<ObjectGround>(b, o.fr, "", o.arg.at(0)));
            else if (o.kind == "curve") sim.objects.push_back(std::make_unique<ObjectCurve>(b, o.fr));
            else if (o.kind == "bump") sim.objects.push_back(std::make_unique<ObjectBump>(b, o.fr));
            else if (o.kind == "gate") sim.objects.push_back(std::make_unique<ObjectGate>(b, o.fr, "", o.arg.at(0)));
            else if (o.kind == "ramp") sim.objects.push_back(std::make_unique<ObjectRamp>(b, o.fr));
            #ifdef THREEDIM
            else if (o.kind == "silo") sim.objects.push_back(std::make_unique<ObjectSilo>(b, o.fr, "", o.arg.at(0)));
            #endif
            else if (o.kind == "plane"){
                TV n; for (unsigned d = 0; d < sim.dim; d++) n(d) = o.arg.at(d);
                n.normalize(); for (unsigned d = 0; d < sim.dim; d++) o.arg[d] = n(d);
                sim.objects.push_back(std::make_unique<ObjectPlane>(b, o.fr, n, o.arg.at(sim.dim)));
            }
            else { fprintf(stderr, "harness: unknown object %s\n", o.kind.c_str()); _exit(3); }
            R.objs.push_back(o);
        }
        else if (k == "only"){ std::string t; while (in >> t) R.only.insert(t); }
        else if (k == "drop"){ std::string t; while (in >> t) R.drop.insert(t); }
        else if (k == "noinit") noinit = true;
        else if (k == "maxev") R.max_events = D();
        else if (k == "save"){      // save [fresh | nowhere]: into an existing folder, one to be created, one that cannot be
            std::string how = S(); R.saving = how != "none"; R.unsaved = !R.saving; R.dir = SCRATCH + "/" + id;
            if (how == "nowhere"){ R.dir += "/missing/missing"; R.nowhere = true; } else if (how != "fresh") mkdir(R.dir.c_str(), 0777);
            DIRNOW = R.dir; fslog_extra = promise;
            fslog_set(OUT, R.dir.c_str(), id.c_str());
        }
        else if (k == "regular" || k == "poisson"){    // regular ppc crop | poisson ppc crop radius seed
            double ppc = D(); int crop = D();
            if (k == "regular") regularSampleParticles(sim, (T)ppc, crop);
            else { double r = D(); unsigned seed = D(); sampleParticles(sim, (T)r, (T)ppc, crop, 20, seed); }
            R.emit("sampled", ",\"how\":\"" + k + "\",\"ppc\":" + num(ppc) + ",\"crop\":" + std::to_string(crop) + ",\"np\":" + std::to_string(sim.Np)
                + R.cfg() + ",\"x\":" + js(sim.particles.x) + ",\"all\":" + (k == "poisson" ? js(thinks::handed()) : "[]")
                + ",\"v\":" + js(sim.particles.v) + ",\"F\":" + js(sim.particles.F));
        }
        else if (k == "query"){      // query all objects at a point: inside? and normal
            TV X; for (unsigned d = 0; d < sim.dim; d++) X(d) = D();
            std::string s = ",\"X\":" + js(X) + ",\"ans\":[";
            for (size_t o = 0; o < sim.objects.size(); o++)
                s += std::string(o ? "," : "") + "{\"in\":" + (sim.objects[o]->inside(X) ? "true" : "false") + ",\"n\":" + js(sim.objects[o]->normal(X)) + "}";
            s += "],\"pin\":[";
            for (size_t o = 0; o < sim.plates.size(); o++) s += std::string(o ? "," : "") + (sim.plates[o]->inside(X) ? "true" : "false");
            R.emit("query", s + "],\"plates\":" + R.plateState());
        }
        #ifdef VERIF_VDB
        else if (k == "levelset"){   // levelset h  lo_i lo_j lo_k  n_i n_j n_k  values...: written to a file, and read back by the code
            openvdb::initialize();
            double h = D(); int lo[3], n[3]; for (int& a : lo) a = D(); for (int& a : n) a = D();
            openvdb::FloatGrid::Ptr g = openvdb::FloatGrid::create((float)(4 * h));
            g->setTransform(openvdb::math::Transform::createLinearTransform(h));
            g->setGridClass(openvdb::GRID_LEVEL_SET);
            auto acc = g->getAccessor();
            std::string vals = "[";
            for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int q = 0; q < n[2]; q++){
                float v = (float)D(); acc.setValue(openvdb::Coord(lo[0]+i, lo[1]+j, lo[2]+q), v);
                if (vals.size() > 1) vals += ","; vals += num(v);
            }
            std::string file = SCRATCH + "/" + id + ".vdb";
            { openvdb::GridPtrVec gs; gs.push_back(g); openvdb::io::File f(file); f.write(gs); f.close(); }
            vdb.reset(new ObjectVdb(file, BC::NoSlip, 0.0, ""));
            unlink(file.c_str());
            TV a, b; vdb->bounds(a, b);
            R.emit("levelset", ",\"dim\":" + std::to_string(sim.dim) + ",\"h\":" + num(h) + ",\"lo\":[" + std::to_string(lo[0]) + "," + std::to_string(lo[1]) + "," + std::to_string(lo[2]) + "],\"n\":["
                + std::to_string(n[0]) + "," + std::to_string(n[1]) + "," + std::to_string(n[2]) + "],\"phi\":" + vals + "],\"bmin\":" + js(a) + ",\"bmax\":" + js(b));
        }
        else if (k == "lsquery"){
            TV X; for (unsigned d = 0; d < sim.dim; d++) X(d) = D();
            R.emit("lsquery", ",\"X\":" + js(X) + ",\"in\":" + (vdb->inside(X) ? "true" : "false") + ",\"nrm\":" + js(vdb->normal(X)));
        }
        else if (k == "lssample"){   // lssample how ppc radius
            std::string how = S(); double ppc = D(), r = D();
            if (how == "regular") regularSampleParticlesFromVdb(sim, *vdb, (T)ppc); else sampleParticlesFromVdb(sim, *vdb, (T)r, (T)ppc);
            R.emit("lssample", ",\"how\":\"" + how + "\",\"ppc\":" + num(ppc) + ",\"np\":" + std::to_string(sim.Np) + R.cfg()
                + ",\"x\":" + js(sim.particles.x) + ",\"all\":" + (how == "regular" ? "[]" : js(thinks::handed())) + ",\"v\":" + js(sim.particles.v) + ",\"F\":" + js(sim.particles.F));
        }
        #endif
        else if (k == "cfg"){ R.emit("cfg", R.cfg()); }
        else if (k == "final"){
            R.emit("final", ",\"Lx\":" + num(sim.pbc ? sim.Lx : 0) + ",\"cw\":" + num(std::sqrt(sim.E / sim.rho)) + ",\"np\":" + std::to_string(sim.Np) + ",\"step\":" + std::to_string(sim.verifStep()) + ",\"x\":" + js(sim.particles.x)
                + ",\"v\":" + js(sim.particles.v) + ",\"F\":" + js(sim.particles.F));
        }
        else if (k == "avg"){
            TM a, b; T j; sim.computeAvgData(a, b, j);
            R.emit("avg", ",\"cauchy\":" + js(a) + ",\"kirchh\":" + js(b) + ",\"J\":" + num(j));
        }
        else if (k == "saveavg"){    // the averages, written to files and read back
            sim.saveAvgData();
            std::string base = R.dir + "/run/avg_", fr = "_frame_" + std::to_string(sim.verifFrame()) + ".csv", s;
            for (const char* n : {"cauchy", "kirchh", "J"}){
                std::string txt = slurp(base + n + fr); for (char& ch : txt) if (ch == ',') ch = ' ';
                std::istringstream i(txt); std::string w; bool c = false; s += std::string(",\"") + n + "\":[";
                while (i >> w){ s += (c ? "," : "") + num(strtod(w.c_str(), nullptr)); c = true; }
                s += "]";
            }
            R.emit("saveavg", s + ",\"last\":" + jstr(slurp(R.dir + "/run/last_saved_frame.txt")));
        }
        else if (k == "go"){
            if (!noinit && !R.inited){
                R.inited = true;
                if (R.saving){ fslog_on = 1; sim.initialize(true, R.dir + "/", "run"); fslog_on = 0; }
                else if (R.unsaved) sim.initialize(false, R.dir + "/", "run");
                else sim.initialize(false);
            }
            R.have_dt = false;
            R.last.clear();
            R.emit("cfg", R.cfg());
            R.emit("pre", R.state());
            if (R.saving) fslog_on = 1;
            sim.simulate();
            fslog_on = 0;
            R.emit("ret", R.state());
            if (R.saving && !R.nowhere) R.files();
            if (R.unsaved){      // whatever lies in the folder a run was given but told not to use
                long k = 0;
                for (const std::string& d : {R.dir, R.dir + "/run"}) if (DIR* D = opendir(d.c_str())){ while (dirent* e = readdir(D)) if (e->d_name[0] != '.') k++; closedir(D); }
                R.emit("stray", ",\"count\":" + std::to_string(k));
            }
        }
        else if (k.empty() || k[0] == '#') {}
        else { fprintf(stderr, "harness: unknown directive %s\n", k.c_str()); _exit(3); }
    }
}

struct Null : std::streambuf { int overflow(int c) override { return c; } };

int main(int argc, char** argv){
    if (argc < 4) return 2;
    std::ifstream in(argv[1]);
    SCRATCH = argv[3];
    static Null nb;
    std::cout.rdbuf(&nb);
    std::cerr.rdbuf(&nb);
    ::close(::open(argv[2], O_CREAT|O_TRUNC|O_WRONLY, 0666));
    std::string line, id; std::vector<std::string> lines; long count = 0;
    int secs = getenv("HARNESS_SECS") ? atoi(getenv("HARNESS_SECS")) : 60;
    int wild = 0;           // scenarios that crashed or had to be stopped: a few of them are enough
    while (std::getline(in, line)){
        if (line.rfind("scenario ", 0) == 0){ id = line.substr(9); lines.clear(); continue; }
        if (line != "end"){ lines.push_back(line); continue; }
        count++;
        pid_t pid = fork();
        if (pid == 0){
            OUT = ::fopen(argv[2], "a");
            static char buf[1<<20]; setvbuf(OUT, buf, _IOFBF, sizeof buf);
            alarm(secs);
            if (!racelog_count){ struct rlimit m = {6ul << 30, 6ul << 30}; setrlimit(RLIMIT_AS, &m); }
            run_scenario(lines, id);
            if (racelog_count && racelog_count() > 0) fprintf(OUT, "{\"ev\":\"race\",\"sc\":\"%s\",\"reports\":%d}\n", id.c_str(), racelog_count());
            fflush(OUT); _exit(0);
        }
        int st = 0; waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 3;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 4){ if ((wild += 2) > 4) break; continue; }
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)){
            // a partial last line may be left behind by a killed child: start a new line
            FILE* o = ::fopen(argv[2], "a");
            fprintf(o, "\n{\"ev\":\"crash\",\"sc\":\"%s\",\"why\":%d}\n", id.c_str(), WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st));
            ::fclose(o);
            if ((wild += WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? 4 : 1) > 4) break;
        }
    }
    return 0;
}
