// Stand-in for Mokka's CGA interface, as far as src/gearcga uses it
#pragma once
#include <cstdio>
#include <string>
#include <vector>
struct cell_ids { int id0, id1; };
void CGAInit(const char* steering, const char* model, const char* setup, const char* host, const char* user, const char* password);
// shoots particles (positions in cm)
void CGABeamOn(double* initial, double* final, double* direction, char* particle, float energy, int nbPart);
// what the last shot met
void CGAGetStepsForJava(std::vector<std::string>& volNames, std::vector<std::string>& matNames, std::vector<double>& distance, std::vector<double>& x, std::vector<double>& y, std::vector<double>& z, std::vector<double>& nbX0, std::vector<double>& nInterLen);
// positions in mm from here on
cell_ids CGAGetCellId(double x, double y, double z, int& flag, double xDir = 0, double yDir = 0, double zDir = 1);
double CGAGetBdl(double* initial, double* final); double CGAGetEdl(double* initial, double* final);
std::string CGAGetMaterialName(double* p); double CGAGetDensity(double* p); double CGAGetTemperature(double* p); double CGAGetPressure(double* p); double CGAGetRadLen(double* p); double CGAGetIntLen(double* p);
std::vector<double> CGAGetLocalPosition(double* p); std::vector<double> CGAGetB(double* p); std::vector<double> CGAGetE(double* p);
std::vector<std::string> CGAGetListOfLogicalVolumes(double* p); std::vector<std::string> CGAGetListOfPhysicalVolumes(double* p); std::string CGAGetRegionName(double* p); bool CGAIsTracker(double* p); bool CGAIsCalorimeter(double* p);
