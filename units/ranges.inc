broadcast use uint_ranges;
