OMP_NUM_THREADS=4 timeout 200 /opt/coffe-venv/bin/python /tmp/pr.py $(python3 /verif/harness/build.py) "$1"; echo rc=$?
