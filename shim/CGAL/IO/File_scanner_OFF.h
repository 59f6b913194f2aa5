#include <CGAL/IO/OFF/File_scanner_OFF.h>
