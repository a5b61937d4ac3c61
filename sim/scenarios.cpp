#include "core.h"
void scenS01(sim::Sim &);
void scenS02(sim::Sim &);
void scenS03(sim::Sim &);
void scenS04(sim::Sim &);
void scenS05(sim::Sim &);
void scenS06(sim::Sim &);
void scenS07(sim::Sim &);
void scenS08(sim::Sim &);
void scenF01(sim::Sim &);
void scenF02(sim::Sim &);
void scenF03(sim::Sim &);
void scenF04(sim::Sim &);
void scenF05(sim::Sim &);
void scenF06(sim::Sim &);
void scenF07(sim::Sim &);
void scenF08(sim::Sim &);
void scenF09(sim::Sim &);
void scenF10(sim::Sim &);
void scenE01(sim::Sim &);
void scenE02(sim::Sim &);
void scenE03(sim::Sim &);
void scenE04(sim::Sim &);
void scenT01(sim::Sim &);
void scenT02(sim::Sim &);
void scenT03(sim::Sim &);
namespace sim {
const std::vector<ScenarioInfo> &scenarios() {
  static const std::vector<ScenarioInfo> v = {
      {"S01", scenS01, 2400, 60000}, {"S02", scenS02, 2400, 60000}, {"S03", scenS03, 2400, 60000},
      {"S04", scenS04, 2000, 50000}, {"S05", scenS05, 2000, 50000}, {"S06", scenS06, 2000, 50000},
      {"S07", scenS07, 2400, 60000}, {"S08", scenS08, 1600, 50000},
      {"E01", scenE01, 1600, 40000}, {"E02", scenE02, 1600, 40000}, {"E03", scenE03, 1600, 40000}, {"E04", scenE04, 1600, 40000},
      {"T01", scenT01, 1600, 40000}, {"T02", scenT02, 1600, 40000}, {"T03", scenT03, 1600, 40000},
      {"F01", scenF01, 2400, 60000}, {"F02", scenF02, 2400, 60000}, {"F03", scenF03, 2400, 60000}, {"F04", scenF04, 2400, 60000}, {"F05", scenF05, 2400, 60000}, {"F06", scenF06, 2400, 60000},
      {"F07", scenF07, 1600, 40000}, {"F08", scenF08, 1200, 40000}, {"F09", scenF09, 1600, 60000}, {"F10", scenF10, 1600, 60000},
  };
  return v;
}
} // namespace sim
