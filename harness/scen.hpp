#pragma once
#include "core.hpp"
void scen_churn();
void scen_tree();
void scen_life();
void scen_close();
void scen_indep();
void scen_leak();
void scen_disturb();
void scen_fail();
void scen_overflow();
void scen_hostile();
void scen_race();
void scen_capi();
void scen_equiv();
void scen_fallback();
void scen_probe();
void scen_pairs();
void check_message(sut::Ev const&, Watcher&);
// Every event's time lies after the change it reports began, where that is certain.
void check_times(vector<Atom> const&, vector<Rec> const&);
void scen_findings();
void scen_chroot();
