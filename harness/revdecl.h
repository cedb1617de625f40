#pragma once
int numforw(int steps, int snaps);
double expense(int steps, int snaps);
