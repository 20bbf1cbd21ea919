#!/bin/bash
cd /verif && python3-vt -c "
import sys; sys.path.insert(0,'vp')
import build; build.mirror(); build.export(['*'],'${MIR:-/verif/.build/probe.json}')"
