#!/bin/bash
# builds the syntax-tree exporter (tool/fvexport.cpp) into .build/
cd "$(dirname "$0")" && python3 -B -c "
import sys; sys.path.insert(0,'.')
from fvlint import ast; ast.build_tool()"
