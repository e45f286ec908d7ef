C = "core/lib/"; X = "ext/lib/"
P("c38-nearer-whole-seconds", "C38", C + "GNSSCore/WxObsMap.cpp", "                  double diffa = wxa.t - t;\n                  double diffb = t - wxb.t;", "                  long diffa = wxa.t - t;\n                  long diffb = t - wxb.t;",
 "two observations whose distances from the time asked differ by less than a second, without interpolation", "the farther one is returned", r'''
#include "WxObsMap.hpp"
#include "CivilTime.hpp"
#include <cstdio>
using namespace gpstk;
int main()
{
   CommonTime t0 = CivilTime(2011, 3, 4, 5, 6, 7.0, TimeSystem::Any);
   WxObsData d;
   d.insertObservation(WxObservation(t0, 10, 1000, 50)); d.insertObservation(WxObservation(t0 + 61.0, 20, 900, 60));
   int bad = 0;
   for (double dt = 29.0; dt < 32.5; dt += 0.25)
   {
      WxObservation w = d.getWxObservation(t0 + dt, 100, false);
      double want = 61 - dt < dt ? 20 : 10;
      if (w.temperature != want) { bad++; printf("at %g: %g\n", dt, w.temperature); }
   }
   return bad != 0;
}
''', )
P("c40-end-included", "C40", C + "GNSSCore/SatMetaDataStore.cpp", "         if ((rv->slotID == slotID)  &&\n             (rv->chl    == channel) &&\n             (when >= rv->startTime) &&\n             (when < rv->endTime))", "         if ((rv->slotID == slotID)  &&\n             (rv->chl    == channel) &&\n             (when >= rv->startTime) &&\n             (when <= rv->endTime))",
 "a look-up by slot and channel at the very moment one record ends and its successor begins", "the satellite that has just left is returned", r'''
#include "SatMetaDataStore.hpp"
#include "YDSTime.hpp"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <unistd.h>
using namespace gpstk;
int main()
{
   char dir[] = "/tmp/smdXXXXXX"; if (!mkdtemp(dir)) return 0;
   std::string f = std::string(dir) + "/s.csv";
   { std::ofstream o(f.c_str());
     const char* s = StringUtils::asString(SatelliteSystem::Glonass).c_str();
     o << "NORAD," << "GLONASS,701,1\nNORAD,GLONASS,702,2\nLAUNCH,GLONASS,701,2000,1,0,M,x\nLAUNCH,GLONASS,702,2000,1,0,M,y\nCLOCK,GLONASS,M,Cs,Cs,Cs,none\n"
       << "SAT,GLONASS,701,1,3,5,2001,1,0,2005,100,0,A,1,sig,Operational,1\nSAT,GLONASS,702,2,3,5,2005,100,0,2009,1,0,A,1,sig,Operational,1\n"; (void)s; }
   SatMetaDataStore st; st.loadData(f);
   unlink(f.c_str()); rmdir(dir);
   SatMetaData d; int bad = 0;
   CommonTime t = YDSTime(2005, 100, 0, TimeSystem::Any);
   if (!st.findSatBySlotFdma(5, 3, t, d) || d.svn != "702") { bad++; printf("at change: %s\n", d.svn.c_str()); }
   if (!st.findSatBySlotFdma(5, 3, t - 1.0, d) || d.svn != "701") { bad++; printf("before: %s\n", d.svn.c_str()); }
   return bad != 0;
}
''')
P("c36-hour-chunk", "C36", C + "FileDirProc/FileHunter.cpp", "            CivilTime tmp(start);\n            tmp.minute = 0;\n            tmp.second = 0.0;", "            CivilTime tmp(start);\n            tmp.minute = 0;",
 "an hourly search whose start time has seconds", "the file of the hour the search starts in is not found", r'''
#include "FileHunter.hpp"
#include "CivilTime.hpp"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <unistd.h>
using namespace gpstk;
int main()
{
   char dir[] = "/tmp/fhXXXXXX"; if (!mkdtemp(dir)) return 0;
   std::string d(dir), fs[3] = {d + "/f2010_100_09.dat", d + "/f2010_100_10.dat", d + "/f2010_100_11.dat"};
   for (int i = 0; i < 3; i++) { std::ofstream o(fs[i].c_str()); o << "x"; }
   FileHunter h(d + "/f%4Y_%3j_%2H.dat");
   int bad = 0;
   for (int k = 0; k < 4; k++)
   {
      CommonTime a = CivilTime(2010, 4, 10, 10, 20 * (k / 2), 15.0 * (k % 2), TimeSystem::Any);
      std::vector<std::string> r = h.find(a, a + 1800.0, FileSpec::ascending, FileHunter::HOUR);
      if (r.size() != 1 || r[0] != fs[1]) { bad++; printf("%d: %d files\n", k, (int)r.size()); }
   }
   for (int i = 0; i < 3; i++) unlink(fs[i].c_str());
   rmdir(dir);
   return bad != 0;
}
''')
P("c35-shrink-edge", "C35", X + "Geomatics/SparseVector.hpp", "            it = vecMap.lower_bound(n);\n            vecMap.erase(it,vecMap.end());", "            it = vecMap.upper_bound(n);\n            vecMap.erase(it,vecMap.end());",
 "shrinking a sparse vector to a length at which it has a non-zero element", "the element at the new length is kept, beyond the end of the vector", r'''
#include "SparseVector.hpp"
#include <cstdio>
using namespace gpstk;
int main()
{
   Vector<double> v(8, 0.0); v(1) = 1; v(3) = 3; v(4) = 4; v(6) = 6;
   int bad = 0;
   for (unsigned n = 0; n <= 8; n++)
   {
      SparseVector<double> p(v); p.resize(n); unsigned nz = 0; double sum = 0;
      for (unsigned k = 0; k < n; k++) if (v(k) != 0) { nz++; sum += v(k); }
      if (p.size() != n || p.datasize() != nz || p.sum(p) != sum) { bad++; printf("%u: %u elements\n", n, (unsigned)p.datasize()); }
   }
   return bad != 0;
}
''')
P("c34-qbump-order", "C34", X + "Geomatics/SRI.cpp", "      for(unsigned int i=0; i<n; i++) {\n         for(unsigned int j=i; j<R.cols(); j++) \n            R(i,j) = 0.0;\n         Z(i) = 0.0;\n      }", "      for(unsigned int i=0; i<n; i++) {\n         for(unsigned int j=i; j<R.cols(); j++) \n            R(i,j) = 0.0;\n      }\n      Z(n-1) = 0.0;",
 "zeroing the information of the first two or more, but not all, elements", "rows of no information keep their right hand side", r'''
#include "SRI.hpp"
#include <cstdio>
using namespace gpstk;
int main()
{
   int bad = 0;
   for (unsigned n = 1; n < 5; n++)
   {
      Matrix<double> R(5, 5, 0.0); Vector<double> Z(5, 0.0); Namelist nl;
      for (int i = 0; i < 5; i++) { nl += std::string(1, char('a' + i)); Z(i) = i + 1; for (int j = i; j < 5; j++) R(i, j) = 1 + i + 2 * j; }
      SRI s(R, Z, nl); s.zeroAll(n);
      Vector<double> z = s.getZ();
      for (unsigned i = 0; i < 5; i++) if (z(i) != (i < n ? 0 : i + 1)) { bad++; printf("zeroAll(%u): Z(%u) = %g\n", n, i, z(i)); }
   }
   return bad != 0;
}
''')
P("c32-vote-majority", "C32", C + "NavFilter/LNavCrossSourceFilter.cpp", "         if (msgCount < 3)\n            winner = NULL;", "         if (uniqueBits > 1 && msgCount < 3)\n            winner = NULL;",
 "exactly two sources report a subframe and agree", "it is accepted although three reports are needed", r'''
#include "LNavCrossSourceFilter.hpp"
#include "LNavFilterData.hpp"
#include "CivilTime.hpp"
#include <cstdio>
using namespace gpstk;
int main()
{
   int bad = 0;
   for (int n = 1; n <= 4; n++)
   {
      LNavCrossSourceFilter f; uint32_t sf[10]; for (int i = 0; i < 10; i++) sf[i] = 0x22c00000u + i * 77u;
      LNavFilterData d[4]; NavFilter::NavMsgList in, out, fin;
      const char* rx[4] = {"a", "b", "c", "d"};
      for (int i = 0; i < n; i++) { d[i].prn = 7; d[i].sf = sf; d[i].stationID = rx[i]; d[i].rxID = rx[i]; d[i].timeStamp = CivilTime(2012, 1, 2, 3, 4, 6.0, TimeSystem::GPS); in.push_back(&d[i]); }
      f.validate(in, out); f.finalize(fin);
      int got = out.size() + fin.size(), want = n >= 3 ? n : 0;
      if (got != want) { bad++; printf("%d reports: %d accepted\n", n, got); }
   }
   return bad != 0;
}
''')
P("c31-azimuth-weights", "C31", X + "Geomatics/AntexData.cpp", "            retpco = (pco[2]*(az_hi - azim) + pco[3]*(azim - az_lo))/(az_hi - az_lo);", "            retpco = (pco[2]*(azim - az_lo) + pco[3]*(az_hi - azim))/(az_hi - az_lo);",
 "a zenith angle on the grid of the calibration and an azimuth off it", "the nearer azimuth gets the smaller weight", r'''
#include "AntexData.hpp"
#include "AntexStream.hpp"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <fstream>
#include <unistd.h>
using namespace gpstk;
static void line(std::ostream& o, std::string s, const char* lab) { s.resize(60, ' '); o << s << lab << "\n"; }
int main()
{
   char dir[] = "/tmp/atxXXXXXX"; if (!mkdtemp(dir)) return 0;
   std::string f = std::string(dir) + "/a.atx";
   { std::ofstream o(f.c_str());
     line(o, "     1.4            M", "ANTEX VERSION / SYST"); line(o, "A", "PCV TYPE / REFANT"); line(o, "", "END OF HEADER");
     line(o, "", "START OF ANTENNA"); line(o, "AOAD/M_T        NONE", "TYPE / SERIAL NO"); line(o, "ROBOT               Geo++ GmbH               1    29-JAN-17", "METH / BY / # / DATE");
     line(o, "    90.0", "DAZI"); line(o, "     0.0  10.0   5.0", "ZEN1 / ZEN2 / DZEN"); line(o, "     1", "# OF FREQUENCIES");
     line(o, "   G01", "START OF FREQUENCY"); line(o, "      0.58     -0.37     91.85", "NORTH / EAST / UP"); o << "   NOAZI    0.00    1.00    2.00\n";
     for (int a = 0; a <= 360; a += 90) { char b[100]; snprintf(b, sizeof b, "%8.1f%8.2f%8.2f%8.2f\n", (double)a, 0.0, (a % 360) / 90.0, 2.0 * (a % 360) / 90.0); o << b; }
     line(o, "   G01", "END OF FREQUENCY"); line(o, "", "END OF ANTENNA"); }
   AntexStream st(f.c_str(), std::ios::in); AntexHeader h; AntexData d; st >> h; st >> d; st.close();
   unlink(f.c_str()); rmdir(dir);
   if (!d.isValid()) { printf("not read\n"); return 2; }
   int bad = 0;
   for (double az = 1; az < 270; az += 7) for (int k = 0; k < 3; k++)
   {
      double got = d.getPhaseCenterVariation("G01", az, 90 - 5 * k), want = k * az / 90;
      if (std::fabs(got - want) > 1e-9) { bad++; if (bad < 5) printf("azimuth %g zenith %d: %g want %g\n", az, 5 * k, got, want); }
   }
   return bad != 0;
}
''')
P("c29-clock-manual-wonky", "C29", C + "ClockModel/ObsClockModel.cpp", "         if (ord.wonky && !useWonkyData)\n            status[svid] = WONKY;", "         if (ord.wonky && !useWonkyData && modes[svid] != ALWAYS)\n            status[svid] = WONKY;",
 "an unreliable deviation of a satellite that is to be used whatever its health", "the unreliable deviation enters the receiver clock", r'''
#include "ObsClockModel.hpp"
#include "ORDEpoch.hpp"
#include "CivilTime.hpp"
#include <cstdio>
#include <cmath>
using namespace gpstk;
struct M : public ObsClockModel
{
   M(SvMode m) : ObsClockModel(2.5, 0, m) {}
   void addEpoch(const ORDEpoch&) {}
   double getOffset(const CommonTime&) const { return 0; }
   bool isOffsetValid(const CommonTime&) const { return true; }
};
struct D : public ObsRngDev
{
   D(double v, int n, bool w, const CommonTime& t) { ord = v; svid = SatID(n, SatelliteSystem::GPS); obstime = t; elevation = 45; azimuth = 10; health = 0; wonky = w; }
};
int main()
{
   CommonTime t = CivilTime(2012, 1, 2, 3, 4, 6.0, TimeSystem::GPS);
   int bad = 0;
   for (int mode = 0; mode < 2; mode++)
   {
      M m(mode ? ObsClockModel::ALWAYS : ObsClockModel::HEALTHY);
      ORDEpoch e; e.time = t;
      for (int i = 1; i <= 6; i++) e.ords[SatID(i, SatelliteSystem::GPS)] = D(i == 3 ? 10.5 : 10 + 0.1 * i, i, i == 3, t);
      Stats<double> s = m.simpleOrdClock(e);
      if (s.N() != 5 || std::fabs(s.Average() - 10.36) > 1e-9) { bad++; printf("mode %d: %d used, %g\n", mode, (int)s.N(), s.Average()); }
   }
   return bad != 0;
}
''')
