# Builds demo.cpp beside this file with the given FairMQ sources of the repository in $PWD and runs it.
# usage: . kit.sh; run_demo SECONDS SOURCE...   (sources relative to fairmq/)
run_demo()
{
    local limit=$1; shift
    local D; D=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
    local R=$PWD
    W=$(mktemp -d /tmp/fmqdemo.XXXXXX) || exit 2
    trap 'rm -r -- "$W"' EXIT
    local F="-std=c++17 -O0 -w -I$D/stubs -I$R -I$R/fairmq -DBOOST_ERROR_CODE_HEADER_ONLY -DBOOST_ASIO_HAS_HAS_STD_CHRONO -DFAIRMQ_HAS_STD_FILESYSTEM=1 -DFAIRMQ_HAS_STD_PMR=1"
    {
        echo "$D/demo.cpp $W/demo.o"
        for s in "$@"; do echo "$R/fairmq/$s $W/$(echo "$s" | tr '/.' '__').o"; done
    } | xargs -P 8 -L 1 sh -c "g++ $F -c \"\$0\" -o \"\$1\"" || exit 2
    g++ "$W"/*.o -o "$W/demo" -lzmq -lboost_program_options -lboost_filesystem -lboost_regex -lboost_system -ldl -lrt -lpthread || exit 2
    (cd "$W" && timeout -k 5 "$limit" ./demo)
    local rc=$?
    [ $rc -eq 124 ] && echo "the demonstration did not end within $limit s"
    return $rc
}
TRANSPORT_SOURCES="Channel.cxx EventManager.cxx JSONParser.cxx MemoryResources.cxx ProgOptions.cxx Properties.cxx States.cxx SuboptParser.cxx TransportFactory.cxx shmem/Common.cxx shmem/Manager.cxx shmem/Monitor.cxx tools/Network.cxx tools/Process.cxx tools/Semaphore.cxx tools/Unique.cxx"
DEVICE_SOURCES="$TRANSPORT_SOURCES Device.cxx StateMachine.cxx"
PLUGIN_SOURCES="$DEVICE_SOURCES DeviceRunner.cxx Plugin.cxx PluginManager.cxx PluginServices.cxx plugins/config/Config.cxx plugins/control/Control.cxx"
