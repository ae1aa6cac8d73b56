#!/bin/bash
cd /verif && mkdir -p target work evidence replays && ./build.sh all
