a = argv(); fid = fopen([a{1} '/flip.ndjson'], 'w');
for rows = 1:3, for cols = 1:4
  f = reshape(0:rows*cols*58-1, rows, cols, 58);
  try
    g = vl_lbpfliplr(f); ev = struct('e', 'Flip', 'rows', rows, 'cols', cols, 'size', size(g), 'from', g(:)');
  catch err
    ev = struct('e', 'Crash', 'in', err.message);
  end
  fprintf(fid, '%s\n', jsonencode(ev));
end, end
fclose(fid);
