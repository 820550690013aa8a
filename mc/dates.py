"""Date strings of every supported written form with their meaning (ground truth written by hand)."""
from datetime import datetime as D

# text -> (meaning, formats that read it so)
DATES = {
    "2013-03-05 15:43:30": (D(2013, 3, 5, 15, 43, 30), {"%Y-%m-%d %H:%M:%S"}),
    "2013-03-06T15:43:30": (D(2013, 3, 6, 15, 43, 30), {"%Y-%m-%dT%H:%M:%S"}),
    "2013-03-06T15:43:30.123456Z": (D(2013, 3, 6, 15, 43, 30, 123456), {"%Y-%m-%dT%H:%M:%S.%fZ", "%Y-%m-%dt%H:%M:%S.%fz"}),
    "2013-03-06t15:43:30.5z": (D(2013, 3, 6, 15, 43, 30, 500000), {"%Y-%m-%dT%H:%M:%S.%fZ", "%Y-%m-%dt%H:%M:%S.%fz"}),
    "03/10/13 15:43": (D(2013, 3, 10, 15, 43), {"%m/%d/%y %H:%M"}),
    "3/8/2013 15:43": (D(2013, 3, 8, 15, 43), {"%m/%d/%Y %H:%M"}),
    "20130306T154330": (D(2013, 3, 6, 15, 43, 30), {"%Y%m%dT%H%M%S"}),
    "2013-03-07": (D(2013, 3, 7), {"%Y-%m-%d"}),
    "3/8/2013": (D(2013, 3, 8), {"%m/%d/%Y"}),
    "03/10/13": (D(2013, 3, 10), {"%m/%d/%y"}),
    "Mar 11, 2013": (D(2013, 3, 11), {"%b %d, %Y"}),
    "March 9, 2013": (D(2013, 3, 9), {"%B %d, %Y"}),
    "12Mar13": (D(2013, 3, 12), {"%d%b%y"}),
    "Mar-13-13": (D(2013, 3, 13), {"%b-%d-%y"}),
    "03142013": (D(2013, 3, 14), {"%m%d%Y"}),
    "05:46:30.258509": (D(1900, 1, 1, 5, 46, 30, 258509), {"%H:%M:%S.%f"}),
    # day suffixes, month May, century window, ends of the calendar
    "March 1st, 2013": (D(2013, 3, 1), {"%B %d, %Y"}),
    "Apr 22nd, 2013": (D(2013, 4, 22), {"%b %d, %Y"}),
    "Apr 3rd, 2013": (D(2013, 4, 3), {"%b %d, %Y"}),
    "Apr 4th, 2013": (D(2013, 4, 4), {"%b %d, %Y"}),
    "May 5, 2013": (D(2013, 5, 5), {"%b %d, %Y", "%B %d, %Y"}),
    "12May13": (D(2013, 5, 12), {"%d%b%y"}),
    "May-13-13": (D(2013, 5, 13), {"%b-%d-%y"}),
    "12/31/68": (D(2068, 12, 31), {"%m/%d/%y"}),
    "01/01/69": (D(1969, 1, 1), {"%m/%d/%y"}),
    "0001-01-01": (D(1, 1, 1), {"%Y-%m-%d"}),
    "9999-12-31": (D(9999, 12, 31), {"%Y-%m-%d"}),
    "1/1/1900": (D(1900, 1, 1), {"%m/%d/%Y"}),
}
# near misses
NOT_DATES = ["2013-13-01", "2013-02-30", "2013/03/07", "13/1/2013", "12:30", "2013", "Mar 2013", "Mar 32, 2013", "20130306",
             "March", "0000-01-01", "3/8/2013 25:00", "2013-03-07x", "today"]
