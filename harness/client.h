// Shared by the harnesses of the command-line client.
#pragma once
#include "core.h"
#include "Util.h"
#include "Options.h"
#include "Variable.h"
#include "Field.h"
#include "KDTree.h"
#include "File/File.h"
#include "Downscaler/Downscaler.h"
#include <dirent.h>
#include <sys/stat.h>

struct ClientError : std::runtime_error { ClientError() : std::runtime_error("client error") {} };
[[noreturn]] void gp_client_abort() { throw ClientError(); }
static const float MV = -999;
inline bool cv(float v) { return Util::isValid(v); }
template <class F> bool client_runs(F f) { try { f(); return true; } catch(const ClientError&) { return false; } }
struct Quiet { Quiet() { Util::setShowError(false); Util::setShowWarning(false); Util::setShowStatus(false); Util::setShowInfo(false); } };
static Quiet quiet_;

struct CGrid { int Y, X; vec2 lats, lons, elevs, lafs; std::string desc; };
inline vec2 init2(int Y, int X, float v = 0) { return vec2(Y, vec(X, v)); }
inline std::string fake_opts(int Y, int X, int E, int T) { return strf("nLat=%d nLon=%d nEns=%d nTime=%d", Y, X, E, T); }
inline FileFake* fake(const CGrid& g, int E, int T) {
    FileFake* f = new FileFake(Options(fake_opts(g.Y, g.X, E, T)));
    f->setLats(g.lats); f->setLons(g.lons);
    if(!g.elevs.empty()) f->setElevs(g.elevs);
    if(!g.lafs.empty()) f->setLandFractions(g.lafs);
    return f;
}
