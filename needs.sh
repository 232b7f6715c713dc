#!/bin/bash
# prints the build needs of one property
case $1 in
P03|P07|P09|P11|P12) echo 'RACE=-race; BINS=' ;;
P13) echo 'RACE=-race; BINS=; CLOCK=1' ;;
P14) echo 'RACE=; BINS=zkserver; CLOCK=1' ;;
P35|P15|P16|P17|P18|P19|P20|P21) echo 'RACE=; BINS=zkserver' ;;
P36|P34|P23|P24|P25|P26|P27|P28|P30|P33) echo 'RACE=; BINS=zkclient' ;;
P29) echo 'RACE=; BINS="zkclient zkserver"' ;;
P32) echo 'RACE=; BINS="zkclient zkserver zkexport zkimport rel:zkclient rel:zkserver rel:zkexport rel:zkimport"' ;;
P31) echo 'RACE=; BINS="zkserver zkclient zkexport zkimport zkservertoken zkserverctl zkserverdump"' ;;
P22) echo 'RACE=; BINS=zkserver:race' ;;
*) echo 'RACE=; BINS=' ;;
esac
